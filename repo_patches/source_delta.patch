From 3c951fe561adc9df905937ab3a8f031f6cbdb8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:52 +0000
Subject: [PATCH 01/95] fix: terminate the last line of a netmail longer than
 one text chunk

The check whether the text ends with a CR looked at the first chunk
instead of the last one. The Via line of a long netmail without a final
CR was glued to its last line of text.
---
 src/crashmail/handle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 441d6ba..f2e5296 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -1165,7 +1165,7 @@ bool HandleNetmail(struct MemMessage *mm)
 
    /* Add CR if last line doesn't end with CR */
 
-   chunk=(struct TextChunk *)mm->TextChunks.First;
+   chunk=(struct TextChunk *)mm->TextChunks.Last;
 
    if(chunk && chunk->Length!=0)
    {
-- 
2.43.0


From 2917b7e202ef130e4c1b5b96eceb9807d5e4c1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:05 +0000
Subject: [PATCH 02/95] fix: terminate the last line of an echomail before
 adding SEEN-BY

An echomail whose text does not end with a CR was forwarded and imported
with the first SEEN-BY or PATH line glued to its last line of text, so
that no other system could find it.
---
 src/crashmail/handle.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index f2e5296..a045dfe 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -523,9 +523,20 @@ bool HandleEchomail(struct MemMessage *mm)
    struct AddNode  *tmpaddnode;
    struct RemNode  *tmpremnode;
    struct ConfigNode *tempcnode;
+   struct TextChunk *chunk;
 
    mm->Type=PKTS_ECHOMAIL;
 
+   /* Add CR if last line doesn't end with CR */
+
+   chunk=(struct TextChunk *)mm->TextChunks.Last;
+
+   if(chunk && chunk->Length!=0 && chunk->Data[chunk->Length-1] != 13)
+   {
+      if(!mmAddBuf(&mm->TextChunks,"\x0d",1))
+         return(FALSE);
+   }
+
    /* Find orignode */
 
    for(tempcnode=(struct ConfigNode *)config.CNodeList.First;tempcnode;tempcnode=tempcnode->Next)
-- 
2.43.0


From c0037d9b889f7cb4cc134a3bdc4e033b0fde5a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:15 +0000
Subject: [PATCH 03/95] fix: do not share the packet serial number with area
 creation

pkt.c and handle.c both define a global named lastt and the linker merges
them. Auto-adding an area while tossing changed the time that CreatePkt()
remembers, the serial number restarted and two packets of the same run got
the same name: one of them overwrote the other.
---
 src/crashmail/handle.c | 2 +-
 src/crashmail/pkt.c    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index a045dfe..8edcf9a 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -94,7 +94,7 @@ bool AddTossNode(struct Area *area,struct ConfigNode *cnode,uint16_t flags)
    return(TRUE);
 }
 
-time_t lastt;
+static time_t lastt;
 
 void MakeDirectory(char *dest,uint32_t destsize,char *defdir,char *areaname)
 {
diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index 3d9e0fa..79c0686 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -558,8 +558,8 @@ struct Pkt *FindPkt(struct Node4D *node,struct Node4D *mynode,uint16_t type)
    return(NULL);
 }
 
-time_t lastt;
-uint32_t serial;
+static time_t lastt;
+static uint32_t serial;
 
 struct Pkt *CreatePkt(struct Node4D *dest,struct ConfigNode *node,struct Node4D *orig,uint16_t type)
 {
-- 
2.43.0


From 92e8bc87fcd9fb31cfbdfa1a68fc2307fe1a7ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:54 +0000
Subject: [PATCH 04/95] fix: reset the seen-by marks of all nodes for
 IGNORESEENBY areas

With CHECKSEENBY, a message in an IGNORESEENBY area was not sent to nodes
that were in the SEEN-BY lines of an earlier message in another area.
---
 src/crashmail/handle.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 8edcf9a..17a98b2 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -628,12 +628,13 @@ bool HandleEchomail(struct MemMessage *mm)
 
    /* Check if a node already is in seen-by */
 
+   for(temptnode=(struct TossNode *)temparea->TossNodes.First;temptnode;temptnode=temptnode->Next)
+      temptnode->ConfigNode->IsInSeenBy=FALSE;
+
    if((config.cfg_Flags & CFG_CHECKSEENBY) && !(temparea->Flags & AREA_IGNORESEENBY))
    {
       for(temptnode=(struct TossNode *)temparea->TossNodes.First;temptnode;temptnode=temptnode->Next)
       {
-         temptnode->ConfigNode->IsInSeenBy=FALSE;
-
          if(temptnode->ConfigNode->Node.Zone == temparea->Aka->Node.Zone)
             if(temptnode->ConfigNode->Node.Point==0)
                if(FindNodes2D(&mm->SeenBy,&temptnode->ConfigNode->Node))
-- 
2.43.0


From c8debb9578903d74f318362f743e366eead77cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:17 +0000
Subject: [PATCH 05/95] fix: report write errors that show up when a file is
 closed

osClose() threw away the result of fclose(), and osFPrintf() and
osVFPrintf() took a negative vfprintf() result for success, so a full
disk could go unnoticed.
---
 src/oslib/osfile.h       |  2 +-
 src/oslib_linux/osfile.c | 11 +++++++----
 src/oslib_win32/osfile.c | 11 ++++++++---
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/oslib/osfile.h b/src/oslib/osfile.h
index 8b55d20..9658551 100644
--- a/src/oslib/osfile.h
+++ b/src/oslib/osfile.h
@@ -15,7 +15,7 @@ typedef void *osFile;
 #define OFFSET_END	 1 
 
 osFile osOpen(char *name,uint32_t mode);
-void osClose(osFile os);
+bool osClose(osFile os);
 int osGetChar(osFile os);
 uint32_t osRead(osFile os,void *buf,uint32_t bytes);
 uint32_t osFGets(osFile os,char *str,uint32_t max);
diff --git a/src/oslib_linux/osfile.c b/src/oslib_linux/osfile.c
index 8982646..5ede21b 100644
--- a/src/oslib_linux/osfile.c
+++ b/src/oslib_linux/osfile.c
@@ -29,9 +29,12 @@ osFile osOpen(char *name,uint32_t mode)
    return (osFile) fh;
 }
 
-void osClose(osFile os)
+bool osClose(osFile os)
 {
-    fclose((FILE *)os);
+   if(fclose((FILE *)os)!=0)
+      return(FALSE);
+
+   return(TRUE);
 }
 
 int osGetChar(osFile os)
@@ -111,7 +114,7 @@ bool osFPrintf(osFile os,char *fmt,...)
    res=vfprintf(os,fmt,args);
    va_end(args);
 	
-	if(!res)
+	if(res<0)
 		return(FALSE);
 		
 	return(TRUE);
@@ -123,7 +126,7 @@ bool osVFPrintf(osFile os,char *fmt,va_list args)
 	
    res=vfprintf(os,fmt,args);
 	
-	if(!res)
+	if(res<0)
 		return(FALSE);
 		
 	return(TRUE);
diff --git a/src/oslib_win32/osfile.c b/src/oslib_win32/osfile.c
index 528865b..b2b453a 100644
--- a/src/oslib_win32/osfile.c
+++ b/src/oslib_win32/osfile.c
@@ -142,16 +142,21 @@ osFile osOpen(char *name,ulong mode)
    return (osFile)os;
 }
 
-void osClose(osFile os)
+bool osClose(osFile os)
 {
    struct osfile *osf=(struct osfile *)os;
+   bool res=TRUE;
 
    if(osf->lastaccessmode == LASTACCESS_WRITE)
-      win32writebuffer(osf);
+      res=win32writebuffer(osf);
+
+   if(!CloseHandle(osf->h))
+      res=FALSE;
 
-   CloseHandle(osf->h);
    osFree(osf->buf);
    osFree(osf);
+
+   return(res);
 }
 
 ulong osRead(osFile os,void *buf,ulong bytes)
-- 
2.43.0


From 4d9b028ea5d4d40664f8745962d2d981664d23dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:18 +0000
Subject: [PATCH 06/95] fix: do not take a packer ended by a signal for a
 success

WEXITSTATUS() is 0 for a command that was killed, so the packet that was
being packed was deleted although the bundle was incomplete.
---
 src/oslib_linux/osmisc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oslib_linux/osmisc.c b/src/oslib_linux/osmisc.c
index 15b0989..63e2141 100644
--- a/src/oslib_linux/osmisc.c
+++ b/src/oslib_linux/osmisc.c
@@ -46,6 +46,9 @@ int osExecute(char *cmd)
 	
    res=system(cmd);
 
+   if(!WIFEXITED(res))
+      return(255); /* Could not be run or was ended by a signal */
+
    return WEXITSTATUS(res);
 }
 
-- 
2.43.0


From 5bde6e4aa64e12ff357240cc7a9b7152109d7f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:52 +0000
Subject: [PATCH 07/95] fix: keep the inbound mail if the packets made from it
 could not be stored

Errors while finishing or archiving outgoing packets were ignored and the
inbound packets deleted all the same.
---
 src/crashmail/crashmail.c | 10 ++++++++--
 src/crashmail/pkt.c       | 15 ++++++++++++++-
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/crashmail.c b/src/crashmail/crashmail.c
index c0c884e..dd6d2b9 100644
--- a/src/crashmail/crashmail.c
+++ b/src/crashmail/crashmail.c
@@ -152,10 +152,16 @@ void AfterScanToss(bool success)
 
    ClosePackets();
 
+   if(ioerror || nomem) /* Something is incomplete, keep the mail for the next time */
+      success=FALSE;
+
    if(success)
    {
-      ArchiveOutbound();
-      ProcessSafeDelete();
+      if(ArchiveOutbound())
+         ProcessSafeDelete();
+
+      else
+         success=FALSE;
    }
 
    for(i=0;AvailMessagebases[i].name;i++)
diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index 79c0686..cdbc7f2 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -659,7 +659,9 @@ void FinishPacket(struct Pkt *pkt)
 {
    pktWrite(pkt,(uint8_t *)"",1);
    pktWrite(pkt,(uint8_t *)"",1);
-   osClose(pkt->fh);
+
+   if(!osClose(pkt->fh))
+      { ioerror=TRUE; ioerrornum=osError(); }
 
    if(pkt->hexnum)
    {
@@ -699,6 +701,8 @@ void FinishPacket(struct Pkt *pkt)
 			uint32_t err=osError();
 			LogWrite(1,SYSTEMERR,"Failed to rename %s to %s",oldname,newname);
 			LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+			ioerror=TRUE;
+			ioerrornum=err;
 		}	
    }
    
@@ -775,6 +779,9 @@ bool WriteSeenBy(struct Pkt *pkt,struct jbList *list)
 
    osFree(buf);
 
+   if(ioerror)
+      return(FALSE);
+
    return(TRUE);
 }
 
@@ -897,6 +904,9 @@ bool WriteEchoMail(struct MemMessage *mm,struct ConfigNode *node, struct Aka *ak
 
    pktWrite(pkt,(uint8_t *)"",1);
 
+   if(ioerror)
+      return(FALSE);
+
    return(TRUE);
 }
 
@@ -961,6 +971,9 @@ bool WriteNetMail(struct MemMessage *mm,struct Node4D *dest,struct Aka *aka)
 
    pktWrite(pkt,(uint8_t *)"",1);
 
+   if(ioerror)
+      return(FALSE);
+
    return(TRUE);
 }
 
-- 
2.43.0


From cb4e6e7c726215ec032bb9504982edd83ac0ff76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:52 +0000
Subject: [PATCH 08/95] fix: keep a packet or bundle that cannot be renamed to
 .bad

If BadFile() failed, the file was deleted after tossing as if it had been
processed.
---
 src/crashmail/misc.c |  5 +++--
 src/crashmail/misc.h |  2 +-
 src/crashmail/pkt.c  | 30 ++++++++++--------------------
 src/crashmail/toss.c |  7 ++++---
 4 files changed, 18 insertions(+), 26 deletions(-)

diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index 5a1d0ce..35ad099 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -279,7 +279,7 @@ void stripleadtrail(char *str)
 	striptrail(str);
 }	
 
-void BadFile(char *filename,char *comment)
+bool BadFile(char *filename,char *comment)
 {
    char destname[100],numbuf[10];
    uint32_t num;
@@ -308,10 +308,11 @@ void BadFile(char *filename,char *comment)
 		uint32_t err=osError();
       LogWrite(1,SYSTEMERR,"Failed to move %s to %s",filename,destname);
 		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
-      return;
+      return(FALSE);
    }
 
    osSetComment(destname,comment);
+   return(TRUE);
 }
 
 bool MatchFlags(char group,char *node)
diff --git a/src/crashmail/misc.h b/src/crashmail/misc.h
index 28fc611..3c392f9 100644
--- a/src/crashmail/misc.h
+++ b/src/crashmail/misc.h
@@ -1,7 +1,7 @@
 void ExpandPacker(char *cmd,char *dest,uint32_t destsize,char *archive,char *file);
 
 bool SortFEList(struct jbList *list);
-void BadFile(char *filename,char *comment);
+bool BadFile(char *filename,char *comment);
 
 bool IsArc(char *file);
 bool IsPkt(char *file);
diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index cdbc7f2..3de4603 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -135,8 +135,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
       LogWrite(1,TOSSINGERR,"Packet header in %s is too short",pkt);
       osClose(fh);
       mmFree(mm);
-      BadFile(pkt,"Packet header is too short");
-      return(TRUE);
+      return BadFile(pkt,"Packet header is too short");
    }
 
    if(getuword(PktHeader,PKTHEADER_PKTTYPE)!=0x0002)
@@ -144,8 +143,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
       LogWrite(1,TOSSINGERR,"%s is not a Type-2 packet",pkt);
       osClose(fh);
       mmFree(mm);
-      BadFile(pkt,"Not a Type-2 packet");
-      return(TRUE);
+      return BadFile(pkt,"Not a Type-2 packet");
    }
 
    if(getuword(PktHeader,PKTHEADER_BAUD) == 2)
@@ -216,8 +214,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
          osClose(fh);
          mmFree(mm);
          sprintf(buf,"Addressed to %u:%u/%u.%u, not to me",PktDest.Zone,PktDest.Net,PktDest.Node,PktDest.Point);
-         BadFile(pkt,buf);
-         return(TRUE);
+         return BadFile(pkt,buf);
       }
    }
 
@@ -313,8 +310,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
       osClose(fh);
       mmFree(mm);
       sprintf(buf,"Message header for msg #1 (offset %d) is too short",msgoffset);
-      BadFile(pkt,buf);
-      return(TRUE);
+      return BadFile(pkt,buf);
    }
 
    msgnum=0;
@@ -363,8 +359,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
          sprintf(buf,"Message header for msg #%u (offset %d) is short",msgnum,msgoffset);
          osClose(fh);
          mmFree(mm);
-         BadFile(pkt,buf);
-         return(TRUE);
+         return BadFile(pkt,buf);
       }
 
       if(longread)
@@ -373,8 +368,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
          sprintf(buf,"Header strings too long in msg #%u (offset %d)",msgnum,msgoffset);
          osClose(fh);
          mmFree(mm);
-         BadFile(pkt,buf);
-         return(TRUE);
+         return BadFile(pkt,buf);
       }
 
       /* Start reading message text */
@@ -411,8 +405,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
 			 LogWrite(1,TOSSINGERR,"Wrong password");
 			 osClose(fh);
 			 mmFree(mm);
-			 BadFile(pkt,"Wrong password");
-			 return(TRUE);
+			 return BadFile(pkt,"Wrong password");
 		  }
 		}
 
@@ -428,8 +421,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
             mmFree(mm);
             LogWrite(1,TOSSINGERR,"Got unexpected EOF when reading msg #%u (offset %d)",msgnum,msgoffset);
             sprintf(buf,"Got unexpected EOF when reading msg #%u (offset %d)",msgnum,msgoffset);
-            BadFile(pkt,buf);
-            return(TRUE);
+            return BadFile(pkt,buf);
          }
 
          if(buf[0])
@@ -490,8 +482,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
 		     osClose(fh);
 		     mmFree(mm);
 		     sprintf(buf,"Packet header too short for msg #%u (offset %d)",msgnum+1,msgoffset);
-		     BadFile(pkt,buf);
-		     return(TRUE);
+		     return BadFile(pkt,buf);
 		}
 		else
 			// some tossers might produce one zero instead two
@@ -505,8 +496,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
       mmFree(mm);
       LogWrite(1,TOSSINGERR,"Unknown message type %u for message #%u (offset %d)",getuword(PktMsgHeader,PKTMSGHEADER_PKTTYPE),msgnum+1,msgoffset);
       sprintf(buf,"Unknown message type %u for message #%u (offset %d)",getuword(PktMsgHeader,PKTMSGHEADER_PKTTYPE),msgnum+1,msgoffset);
-      BadFile(pkt,buf);
-      return(TRUE);
+      return BadFile(pkt,buf);
    }
 
    printf("                      \x0d");
diff --git a/src/crashmail/toss.c b/src/crashmail/toss.c
index 7eafcbc..533d36a 100644
--- a/src/crashmail/toss.c
+++ b/src/crashmail/toss.c
@@ -96,8 +96,7 @@ bool TossBundle(char *file,struct osFileEntry *fe)
    if(!(tmppacker=(struct Packer *)DetectPacker(file)))
    {
       LogWrite(1,TOSSINGINFO,"Failed to recognize archive type of %s",file);
-      BadFile(file,"Unknown packer");
-      return(TRUE);
+      return BadFile(file,"Unknown packer");
    }
 
    printf("\n");
@@ -119,7 +118,9 @@ bool TossBundle(char *file,struct osFileEntry *fe)
    {
       LogWrite(1,SYSTEMERR,"Unarchiving failed: %u",arcres);
       sprintf(buf2,"Unarchiving with %s failed: %u",tmppacker->Name,arcres);
-      BadFile(file,buf2);
+
+      if(!BadFile(file,buf2))
+         return(FALSE);
    }
 
    if(!osReadDir(config.cfg_TempDir,&FEList,IsPkt))
-- 
2.43.0


From ab802627e32661c3715bc11119f564e799a6ecc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:52 +0000
Subject: [PATCH 09/95] fix: do not delete or quarantine inbound files that
 could not be opened

ReadPkt() reported success for a packet it could not open, so that the
packet was deleted unread; a bundle that could not be opened became .bad.
---
 src/crashmail/pkt.c  |  2 +-
 src/crashmail/toss.c | 13 +++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index 3de4603..614aa96 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -127,7 +127,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
       LogWrite(1,SYSTEMERR,"Unable to open %s",pkt);
 		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
       mmFree(mm);
-      return(TRUE);
+      return(FALSE);
    }
 
    if(osRead(fh,PktHeader,SIZE_PKTHEADER)!=SIZE_PKTHEADER)
diff --git a/src/crashmail/toss.c b/src/crashmail/toss.c
index 533d36a..0ee2cd7 100644
--- a/src/crashmail/toss.c
+++ b/src/crashmail/toss.c
@@ -28,12 +28,14 @@ bool Compare(char *str,char *recog)
    return(TRUE);
 }
 
-struct Packer *DetectPacker(char *file)
+struct Packer *DetectPacker(char *file,bool *readable)
 {
    osFile fh;
    char buf[40];
    struct Packer *tmppacker;
 
+   *readable=FALSE;
+
    if(!(fh=osOpen(file,MODE_OLDFILE)))
    {
 		uint32_t err=osError();
@@ -42,6 +44,9 @@ struct Packer *DetectPacker(char *file)
       return(NULL);
    }
 
+   *readable=TRUE;
+
+   memset(buf,0,40);
    osRead(fh,buf,40);
    osClose(fh);
 
@@ -85,6 +90,7 @@ bool TossBundle(char *file,struct osFileEntry *fe)
    struct jbList FEList;
    struct osFileEntry *pktfe,*safedel;
    int arcres;
+   bool readable;
 
    if(fe->Size == 0)
    {
@@ -93,8 +99,11 @@ bool TossBundle(char *file,struct osFileEntry *fe)
       return(TRUE);
    }
 
-   if(!(tmppacker=(struct Packer *)DetectPacker(file)))
+   if(!(tmppacker=(struct Packer *)DetectPacker(file,&readable)))
    {
+      if(!readable)
+         return(FALSE);
+
       LogWrite(1,TOSSINGINFO,"Failed to recognize archive type of %s",file);
       return BadFile(file,"Unknown packer");
    }
-- 
2.43.0


From 04bfb42f3341607eaaf51c6d80d8ebc61337e2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:52 +0000
Subject: [PATCH 10/95] fix: do not rename a good packet to .bad when tossing
 is interrupted

After Ctrl-C the header of the next message was taken for an unknown
message type. Also free the message buffer at the end of a packet.
---
 src/crashmail/pkt.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index 614aa96..d0ccc3b 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -490,6 +490,13 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
       }
    }
 
+   if(ctrlc)
+   {
+      osClose(fh);
+      mmFree(mm);
+      return(FALSE);
+   }
+
    if(getuword(PktMsgHeader,PKTMSGHEADER_PKTTYPE)!=0)
    {
       osClose(fh);
@@ -503,6 +510,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
    fflush(stdout);
 
    osClose(fh);
+   mmFree(mm);
 
    return(TRUE);
 }
-- 
2.43.0


From 6a8962f5a4e3d2ccf095e794764ad3a4feda28b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:30 +0000
Subject: [PATCH 11/95] fix: write the duplicate file only after the mail has
 been processed

Entries were appended in place while tossing, so that after a failed or
interrupted toss the retry took its own messages for duplicates and lost
them, and a torn entry made the file unusable. Collect the new entries in
memory and write them with a temporary file and a rename when the packets
have been archived. The index was also truncated to 16 bits when the file
was rewritten.
---
 src/crashmail/crashmail.c |  12 +-
 src/crashmail/dupe.c      | 229 +++++++++++++++++++++++---------------
 src/crashmail/dupe.h      |   1 +
 src/oslib_win32/osmisc.c  |   2 +-
 4 files changed, 150 insertions(+), 94 deletions(-)

diff --git a/src/crashmail/crashmail.c b/src/crashmail/crashmail.c
index dd6d2b9..823b0bd 100644
--- a/src/crashmail/crashmail.c
+++ b/src/crashmail/crashmail.c
@@ -156,13 +156,13 @@ void AfterScanToss(bool success)
       success=FALSE;
 
    if(success)
-   {
-      if(ArchiveOutbound())
-         ProcessSafeDelete();
+      success=ArchiveOutbound();
 
-      else
-         success=FALSE;
-   }
+   if(init_dupedb)
+      UpdateDupeDB(success);
+
+   if(success)
+      ProcessSafeDelete();
 
    for(i=0;AvailMessagebases[i].name;i++)
       if(AvailMessagebases[i].active && AvailMessagebases[i].afterfunc)
diff --git a/src/crashmail/dupe.c b/src/crashmail/dupe.c
index caf4630..075ccb1 100644
--- a/src/crashmail/dupe.c
+++ b/src/crashmail/dupe.c
@@ -52,8 +52,10 @@ uint32_t calcstringcrc(char *str)
 
 struct dupeentry
 {
-   uint32_t offset;
+   uint32_t offset; /* Position in dupe file if data is NULL */
    uint32_t crc32;
+   char *data;      /* Entry added in this run, not in the dupe file yet */
+   uint16_t size;
 };
 
 bool dupechanged;
@@ -62,10 +64,15 @@ struct dupeentry *dupebuf;
 uint32_t dupeentrynum,dupeentrymax;
 osFile dupefh;
 
-void adddupeindex(uint32_t offset,uint32_t crc32)
+void adddupeindex(uint32_t offset,uint32_t crc32,char *data,uint16_t size)
 {
+   if(dupeentrynum < dupeentrymax && dupebuf[dupeentrynum].data)
+      osFree(dupebuf[dupeentrynum].data);
+
    dupebuf[dupeentrynum].offset=offset;
    dupebuf[dupeentrynum].crc32=crc32;
+   dupebuf[dupeentrynum].data=data;
+   dupebuf[dupeentrynum].size=size;
 
    dupeentrynum++;
 
@@ -76,34 +83,44 @@ void adddupeindex(uint32_t offset,uint32_t crc32)
       dupeentrynum=0;
 }
 
-void copydupe(uint16_t c,osFile oldfh,osFile newfh)
+/* Gets entry c. Returns the size or 0 if it could not be read */
+
+uint16_t getdupe(uint32_t c,char *buf)
 {
-   char buf[300];
    uint16_t size;
 
-   osSeek(oldfh,dupebuf[c].offset,OFFSET_BEGINNING);
+   if(dupebuf[c].data)
+   {
+      memcpy(buf,dupebuf[c].data,dupebuf[c].size);
+      return(dupebuf[c].size);
+   }
 
-   if(osRead(oldfh,&size,sizeof(uint16_t))!=sizeof(uint16_t))
-      return;
+   osSeek(dupefh,dupebuf[c].offset,OFFSET_BEGINNING);
 
-   if(osRead(oldfh,buf,size) != size)
-      return;
+   if(osRead(dupefh,&size,sizeof(uint16_t))!=sizeof(uint16_t) || size > 300)
+      return(0);
+
+   if(osRead(dupefh,buf,size) != size)
+      return(0);
+
+   return(size);
+}
+
+bool copydupe(uint32_t c,osFile newfh)
+{
+   char buf[300];
+   uint16_t size;
+
+   if(!(size=getdupe(c,buf)))
+      return(TRUE); /* Unreadable entry, leave it out */
 
    if(!osWrite(newfh,&size,sizeof(uint16_t)))
-   {
-		uint32_t err=osError();
-      LogWrite(1,SYSTEMERR,"Failed to write to temporary dupe file");
-      LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
-      return;
-   }
+      return(FALSE);
 
    if(!osWrite(newfh,buf,size))
-   {
-		uint32_t err=osError();
-      LogWrite(1,SYSTEMERR,"Failed to write to temporary dupe file");
-      LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
-      return;
-   }
+      return(FALSE);
+
+   return(TRUE);
 }
 
 bool OpenDupeDB(void)
@@ -123,30 +140,33 @@ bool OpenDupeDB(void)
 
    dupechanged=FALSE;
 
-   if(!(dupefh=osOpen(config.cfg_DupeFile,MODE_READWRITE)))
+   dupefh=NULL;
+
+   if(!osExists(config.cfg_DupeFile))
+   {
+		LogWrite(3,TOSSINGINFO,"Creating new dupe file %s",config.cfg_DupeFile);
+      return(TRUE);
+   }
+
+   if(!(dupefh=osOpen(config.cfg_DupeFile,MODE_OLDFILE)))
    {
 		uint32_t err=osError();
-      LogWrite(1,SYSTEMERR,"Failed to open dupe file %s in read/write mode",config.cfg_DupeFile);
+      LogWrite(1,SYSTEMERR,"Failed to open dupe file %s",config.cfg_DupeFile);
       LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+      osFree(dupebuf);
+      dupebuf=NULL;
       return(FALSE);
    }
 
    res=osRead(dupefh,buf,4);
    buf[4]=0;
 
-   if(res == 0)
-   {
-      /* New file */
-
-		LogWrite(3,TOSSINGINFO,"Creating new dupe file %s",config.cfg_DupeFile);
-
-      strcpy(buf,DUPES_IDENTIFIER);
-      osWrite(dupefh,buf,4);
-   }
-   else if(res != 4 || strcmp(buf,DUPES_IDENTIFIER)!=0)
+   if(res != 0 && (res != 4 || strcmp(buf,DUPES_IDENTIFIER)!=0))
    {
       LogWrite(1,SYSTEMERR,"Invalid format of dupe file %s, exiting...",config.cfg_DupeFile);
       osClose(dupefh);
+      osFree(dupebuf);
+      dupebuf=NULL;
       return(FALSE);
    }
 
@@ -158,6 +178,8 @@ bool OpenDupeDB(void)
       {
          LogWrite(1,SYSTEMERR,"Error in dupe file %s, exiting...",config.cfg_DupeFile);
          osClose(dupefh);
+         osFree(dupebuf);
+         dupebuf=NULL;
          return(FALSE);
       }
 
@@ -165,97 +187,126 @@ bool OpenDupeDB(void)
       {
          LogWrite(1,SYSTEMERR,"Error in dupe file %s, exiting...",config.cfg_DupeFile);
          osClose(dupefh);
+         osFree(dupebuf);
+         dupebuf=NULL;
          return(FALSE);
       }
 
       crc32p=(uint32_t *)buf;
       crc32=*crc32p;
 
-      adddupeindex(offset,crc32);
+      adddupeindex(offset,crc32,NULL,0);
 
       offset += size+2;
    }
 
-   dupechanged=FALSE;
-
    return(TRUE);
 }
 
 void CloseDupeDB(void)
 {
-   osFile newfh;
    uint32_t c;
-   char duptemp[200];
 
-   if(!dupechanged)
-   {
+   if(!dupebuf)
+      return; /* Could not be opened again by UpdateDupeDB() */
+
+   for(c=0;c<dupeentrymax;c++)
+      if(dupebuf[c].data) osFree(dupebuf[c].data);
+
+   if(dupefh)
       osClose(dupefh);
-      return;
-   }
 
-   strcpy(duptemp,config.cfg_DupeFile);
-   strcat(duptemp,".tmp");
+   osFree(dupebuf);
+   dupebuf=NULL;
+
+   dupeentrynum=0;
+   dupeentrymax=0;
+   dupechanged=FALSE;
+}
+
+bool WriteDupeDB(char *name)
+{
+   osFile newfh;
+   uint32_t c;
+   bool ok;
 
-   if(!(newfh=osOpen(duptemp,MODE_NEWFILE)))
+   if(!(newfh=osOpen(name,MODE_NEWFILE)))
    {
 		uint32_t err=osError();
-      LogWrite(1,SYSTEMERR,"Failed to open temporary dupe file %s for writing",duptemp);
+      LogWrite(1,SYSTEMERR,"Failed to open temporary dupe file %s for writing",name);
       LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+      return(FALSE);
+   }
 
-      osFree(dupebuf);
-      osClose(dupefh);
+   ok=osWrite(newfh,DUPES_IDENTIFIER,4);
 
-      return;
+   for(c=dupeentrynum;c<dupeentrymax && ok;c++)
+      ok=copydupe(c,newfh);
+
+   for(c=0;c<dupeentrynum && ok;c++)
+      ok=copydupe(c,newfh);
+
+   if(!osClose(newfh))
+      ok=FALSE;
+
+   if(!ok)
+   {
+		uint32_t err=osError();
+      LogWrite(1,SYSTEMERR,"Failed to write to temporary dupe file %s",name);
+      LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+      osDelete(name);
    }
 
-   osWrite(newfh,DUPES_IDENTIFIER,4);
+   return(ok);
+}
 
-   for(c=dupeentrynum;c<dupeentrymax;c++)
-      copydupe(c,dupefh,newfh);
+/* Writes the entries added since the file was opened to the dupe file
+   if the messages they belong to have been processed successfully and
+   forgets about them otherwise */
 
-   for(c=0;c<dupeentrynum;c++)
-      copydupe(c,dupefh,newfh);
+void UpdateDupeDB(bool success)
+{
+   char duptemp[200];
 
-   osClose(dupefh);
-   osClose(newfh);
-   osFree(dupebuf);
+   if(!dupechanged)
+      return;
 
-   dupechanged=FALSE;
+   if(success)
+   {
+      strcpy(duptemp,config.cfg_DupeFile);
+      strcat(duptemp,".tmp");
 
-   osDelete(config.cfg_DupeFile);
-   osRename(duptemp,config.cfg_DupeFile);
+      if(WriteDupeDB(duptemp))
+      {
+         if(!osRename(duptemp,config.cfg_DupeFile))
+         {
+		      uint32_t err=osError();
+            LogWrite(1,SYSTEMERR,"Failed to rename %s to %s",duptemp,config.cfg_DupeFile);
+            LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+            osDelete(duptemp);
+         }
+      }
+   }
 
-   return;
+   CloseDupeDB();
+   OpenDupeDB();
 }
 
 void AddDupeBuf(char *buf,uint16_t size)
 {
-   uint32_t offset;
-   uint32_t crc32,*crc32p;
-
-   osSeek(dupefh,0,OFFSET_END);
-   offset=osFTell(dupefh);
-
-   crc32p=(uint32_t *)buf;
-   crc32=*crc32p;
+   uint32_t *crc32p;
+   char *data;
 
-   if(!osWrite(dupefh,&size,sizeof(uint16_t)))
+   if(!(data=osAlloc(size)))
    {
-		uint32_t err=osError();
-      LogWrite(1,SYSTEMERR,"Failed to write to dupe file");
-      LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+      nomem=TRUE;
       return;
    }
 
-   if(!osWrite(dupefh,buf,size))
-   {
-		uint32_t err=osError();
-      LogWrite(1,SYSTEMERR,"Failed to write to dupe file");
-      LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
-      return;
-   }
+   memcpy(data,buf,size);
+   crc32p=(uint32_t *)buf;
 
-   adddupeindex(offset,crc32);
+   adddupeindex(0,*crc32p,data,size);
 
    dupechanged=TRUE;
 }
@@ -279,6 +330,12 @@ bool CheckDupe(struct MemMessage *mm)
    if(mm->MSGID[0] == 0)
       return(FALSE); /* No dupechecking for messages without MSGID */
 
+   if(!dupebuf)
+   {
+      ioerror=TRUE;
+      return(FALSE);
+   }
+
    crc32=calcstringcrc(mm->MSGID);
 
    crc32p=(uint32_t *)dbuf;
@@ -296,13 +353,11 @@ bool CheckDupe(struct MemMessage *mm)
       {
          /* CRC matches, check rest */
 
-         osSeek(dupefh,dupebuf[c].offset,OFFSET_BEGINNING);
+         size=getdupe(c,buf);
 
-         if(osRead(dupefh,&size,sizeof(uint16_t))==sizeof(uint16_t))
-            if(size == dsize)
-               if(osRead(dupefh,buf,(uint32_t)size) == size)
-                  if(dupecomp(buf,dbuf,dsize) == 0)
-                     return(TRUE); /* Dupe */
+         if(size == dsize)
+            if(dupecomp(buf,dbuf,dsize) == 0)
+               return(TRUE); /* Dupe */
       }
 
 
diff --git a/src/crashmail/dupe.h b/src/crashmail/dupe.h
index accab05..9c78721 100644
--- a/src/crashmail/dupe.h
+++ b/src/crashmail/dupe.h
@@ -2,6 +2,7 @@
 
 bool OpenDupeDB(void);
 void CloseDupeDB(void);
+void UpdateDupeDB(bool success);
 
 bool CheckDupe(struct MemMessage *mm);
 
diff --git a/src/oslib_win32/osmisc.c b/src/oslib_win32/osmisc.c
index 8e6c5dd..26a4a1d 100644
--- a/src/oslib_win32/osmisc.c
+++ b/src/oslib_win32/osmisc.c
@@ -64,7 +64,7 @@ bool osMkDir(char *dir)
 
 bool osRename(char *oldfile,char *newfile)
 {
-   if(MoveFile(oldfile,newfile))
+   if(MoveFileEx(oldfile,newfile,MOVEFILE_REPLACE_EXISTING | MOVEFILE_COPY_ALLOWED))
 		return(TRUE);
 
 	return(FALSE);
-- 
2.43.0


From ea07025902f490ac19e29221e9023a413bfa5c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:58 +0000
Subject: [PATCH 12/95] fix: create lock files exclusively

Between looking for a lock file and creating it another program could
create it too, and both went on.
---
 src/crashmail/crashmail.c | 22 +++++++++++++++-------
 src/crashmail/outbound.c  |  9 +++++----
 src/oslib/osfile.h        |  1 +
 src/oslib_linux/osfile.c  |  4 ++++
 src/oslib_win32/osfile.c  |  6 ++++++
 5 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/crashmail/crashmail.c b/src/crashmail/crashmail.c
index 823b0bd..1988294 100644
--- a/src/crashmail/crashmail.c
+++ b/src/crashmail/crashmail.c
@@ -489,8 +489,22 @@ bool LockConfig(char *file)
 	strcpy(buf,file);
 	strcat(buf,".busy");
 
-	while(osExists(buf))
+	while(!(fp=osOpen(buf,MODE_EXCLUSIVE)))
 	{
+		if(!osExists(buf))
+		{
+			/* Might just have been unlocked */
+
+			if((fp=osOpen(buf,MODE_EXCLUSIVE)))
+				break;
+
+			if(!osExists(buf))
+			{
+				printf("Failed to create lock file %s\n",buf);
+				return(FALSE);
+			}
+		}
+
 		printf("Configuration file %s is already in use, waiting 10 seconds...\n",file);
 
 		osSleep(10);
@@ -499,12 +513,6 @@ bool LockConfig(char *file)
 			return(FALSE);
 	}
 	
-	if(!(fp=osOpen(buf,MODE_NEWFILE)))
-	{
-		printf("Failed to create lock file %s\n",buf);
-		return(FALSE);
-	}
-	
 	osClose(fp);
 
 	return(TRUE);
diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index 263aef5..941221f 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -12,12 +12,13 @@ bool LockBasename(char *basename)
 	strcpy(buf,basename);
 	strcat(buf,".bsy");
 
-	if(osExists(buf))
-		return(FALSE);
-	
-	if(!(fp=osOpen(buf,MODE_NEWFILE)))
+	if(!(fp=osOpen(buf,MODE_EXCLUSIVE)))
 	{
 		uint32_t err=osError();
+
+		if(osExists(buf))
+			return(FALSE);
+
 		LogWrite(1,SYSTEMERR,"Failed to create busy file %s\n",buf);
 		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));		
 		return(FALSE);
diff --git a/src/oslib/osfile.h b/src/oslib/osfile.h
index 9658551..b31638f 100644
--- a/src/oslib/osfile.h
+++ b/src/oslib/osfile.h
@@ -9,6 +9,7 @@ typedef void *osFile;
 
 #define MODE_OLDFILE    1005  /* Corresponds to "rb" with fopen */
 #define MODE_NEWFILE    1006  /* Corresponds to "wb" with fopen */
+#define MODE_EXCLUSIVE  1007  /* Corresponds to "wbx" with fopen, fails if the file exists */
 #define MODE_READWRITE  1004  /* Corresponds to "w+b" with fopen */
 
 #define OFFSET_BEGINNING -1
diff --git a/src/oslib_linux/osfile.c b/src/oslib_linux/osfile.c
index 5ede21b..ceb79d2 100644
--- a/src/oslib_linux/osfile.c
+++ b/src/oslib_linux/osfile.c
@@ -16,6 +16,10 @@ osFile osOpen(char *name,uint32_t mode)
 	{
 		fh=fopen(name,"wb");
 	}
+   else if(mode == MODE_EXCLUSIVE) 
+	{
+		fh=fopen(name,"wbx");
+	}
    else if(mode == MODE_OLDFILE) 
 	{
 		fh=fopen(name,"rb");
diff --git a/src/oslib_win32/osfile.c b/src/oslib_win32/osfile.c
index b2b453a..3030e51 100644
--- a/src/oslib_win32/osfile.c
+++ b/src/oslib_win32/osfile.c
@@ -114,6 +114,12 @@ osFile osOpen(char *name,ulong mode)
       sharemode=0;
       creationdisposition=CREATE_ALWAYS;
 	}
+   else if(mode == MODE_EXCLUSIVE) 
+	{
+      desiredaccess=GENERIC_WRITE;
+      sharemode=0;
+      creationdisposition=CREATE_NEW;
+	}
    else if(mode == MODE_OLDFILE) 
 	{
       desiredaccess=GENERIC_READ;
-- 
2.43.0


From a5952def754e1967110bec24dfc9abc4a986cb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:59 +0000
Subject: [PATCH 13/95] fix: hold the configuration lock until all files are
 closed

---
 src/crashmail/crashmail.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/crashmail.c b/src/crashmail/crashmail.c
index 1988294..6c80b0b 100644
--- a/src/crashmail/crashmail.c
+++ b/src/crashmail/crashmail.c
@@ -132,7 +132,10 @@ bool Init(void)
    }
 
    if(!ReadStats(config.cfg_StatsFile))
+   {
+      Free();
       return(FALSE);
+   }
 
    nomem=FALSE;
    ioerror=FALSE;
@@ -533,12 +536,12 @@ void CleanUp(int err)
    if(done_welcomemsg)
       LogWrite(2,SYSTEMINFO,"CrashMail end");
 
-	if(done_lockconfig)
-		UnlockConfig(config.filename);
-
    if(done_init)
       Free();
 
+	if(done_lockconfig)
+		UnlockConfig(config.filename);
+
    if(done_initconfig)
       FreeConfig(&config);
 
-- 
2.43.0


From 8f7cc990cfe7a3a86099ed97a7120916d8a91218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:41 +0000
Subject: [PATCH 14/95] fix: do not destroy the statistics if they cannot be
 written or read

The file was truncated before the new contents were written and write
errors were ignored, so that a crash or a full disk left a file with which
CrashMail refused to start.
---
 src/crashmail/stats.c | 51 +++++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 11 deletions(-)

diff --git a/src/crashmail/stats.c b/src/crashmail/stats.c
index 12fffcc..a4ef89f 100644
--- a/src/crashmail/stats.c
+++ b/src/crashmail/stats.c
@@ -41,11 +41,19 @@ bool WriteStats(char *file)
    struct DiskNodeStats dnstat;
    osFile fh;
    uint32_t areas,nodes;
+   char tmpname[200];
+   bool ok;
 
-   if(!(fh=osOpen(file,MODE_NEWFILE)))
+   /* Write to a temporary file so that the old statistics are still
+      there if something goes wrong */
+
+   mystrncpy(tmpname,file,190);
+   strcat(tmpname,".tmp");
+
+   if(!(fh=osOpen(tmpname,MODE_NEWFILE)))
    {
 		uint32_t err=osError();
-      LogWrite(1,SYSTEMERR,"Unable to open %s for writing",file);
+      LogWrite(1,SYSTEMERR,"Unable to open %s for writing",tmpname);
 		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
       return(FALSE);
    }
@@ -66,9 +74,9 @@ bool WriteStats(char *file)
    if(DayStatsWritten == 0)
       DayStatsWritten = time(NULL) / (24*60*60);
 
-   osWrite(fh,STATS_IDENTIFIER,4);
-   osWrite(fh,&DayStatsWritten,sizeof(uint32_t));
-   osWrite(fh,&areas,sizeof(uint32_t));
+   ok=osWrite(fh,STATS_IDENTIFIER,4);
+   ok=ok && osWrite(fh,&DayStatsWritten,sizeof(uint32_t));
+   ok=ok && osWrite(fh,&areas,sizeof(uint32_t));
 
    for(area=(struct Area *)config.AreaList.First;area;area=area->Next)
    {
@@ -85,12 +93,12 @@ bool WriteStats(char *file)
 	         Copy4D(&dastat.Aka,&area->Aka->Node);
    	      dastat.Group=area->Group;
 
-      	   osWrite(fh,&dastat,sizeof(struct DiskAreaStats));
+      	   ok=ok && osWrite(fh,&dastat,sizeof(struct DiskAreaStats));
 			}
       }
    }
 
-   osWrite(fh,&nodes,sizeof(uint32_t));
+   ok=ok && osWrite(fh,&nodes,sizeof(uint32_t));
 
    for(cnode=(struct ConfigNode *)config.CNodeList.First;cnode;cnode=cnode->Next)
    {
@@ -106,10 +114,23 @@ bool WriteStats(char *file)
       dnstat.Dupes=cnode->Dupes;
       dnstat.FirstTime=cnode->FirstTime;
 
-      osWrite(fh,&dnstat,sizeof(struct DiskNodeStats));
+      ok=ok && osWrite(fh,&dnstat,sizeof(struct DiskNodeStats));
    }
 
-   osClose(fh);
+   if(!osClose(fh))
+      ok=FALSE;
+
+   if(ok && !osRename(tmpname,file))
+      ok=FALSE;
+
+   if(!ok)
+   {
+		uint32_t err=osError();
+      LogWrite(1,SYSTEMERR,"Failed to write %s",file);
+		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+      osDelete(tmpname);
+      return(FALSE);
+   }
 
    return(TRUE);
 }
@@ -124,11 +145,19 @@ bool ReadStats(char *file)
    osFile fh;
    char buf[5];
 
-   if(!(fh=osOpen(file,MODE_OLDFILE)))
+   if(!osExists(file))
       return(TRUE); /* No reason for exiting */
 
+   if(!(fh=osOpen(file,MODE_OLDFILE)))
+   {
+		uint32_t err=osError();
+      LogWrite(1,SYSTEMERR,"Unable to open %s",file);
+		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+      return(FALSE);
+   }
+
+   memset(buf,0,5);
    osRead(fh,buf,4);
-   buf[4]=0;
 
    if(strcmp(buf,STATS_IDENTIFIER)!=0)
    {
-- 
2.43.0


From a5bf2c93c5d28a52a4d913effe46e75273916727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:55 +0000
Subject: [PATCH 15/95] fix: replace the configuration file atomically and only
 when complete

Write errors were ignored, and between the two renames there was no
configuration file at all. osClose() now also reports errors of earlier
writes and copyfile() notices errors when closing the copy.
---
 src/crashmail/config.c   | 22 ++++++++++++++++++----
 src/crashmail/misc.c     | 18 +++++++++++++-----
 src/oslib_linux/osfile.c |  9 +++++++--
 3 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/src/crashmail/config.c b/src/crashmail/config.c
index 949e251..01c7156 100644
--- a/src/crashmail/config.c
+++ b/src/crashmail/config.c
@@ -2362,11 +2362,25 @@ bool UpdateConfig(struct Config *cfg,char *cfgerr)
       }
 
    osClose(oldfh);
-   osClose(newfh);
 
-   osDelete(cfgbak);
-   osRename(cfg->filename,cfgbak);
-   osRename(cfgtemp,cfg->filename);
+   if(!osClose(newfh))
+   {
+		uint32_t err=osError();
+      sprintf(cfgerr,"Failed to write to config file %s (error: %s)",cfgtemp,osErrorMsg(err));
+      osDelete(cfgtemp);
+      return(FALSE);
+   }
+
+   /* The old file is copied and then replaced so that there always is
+      a complete configuration file */
+
+   if(!copyfile(cfg->filename,cfgbak) || !osRename(cfgtemp,cfg->filename))
+   {
+		uint32_t err=osError();
+      sprintf(cfgerr,"Failed to replace config file %s (error: %s)",cfg->filename,osErrorMsg(err));
+      osDelete(cfgtemp);
+      return(FALSE);
+   }
 
    cfg->changed=FALSE;
 
diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index 35ad099..94d32d8 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -362,6 +362,7 @@ bool copyfile(char *file,char *newfile)
    osFile ifh,ofh;
    uint32_t len;
    char *copybuf;
+   bool ok;
 
    if(!(copybuf=(char *)malloc(COPYBUFSIZE)))
 	{
@@ -382,19 +383,26 @@ bool copyfile(char *file,char *newfile)
       return(FALSE);
    }
 
-   while((len=osRead(ifh,copybuf,COPYBUFSIZE)) && !ioerror)
+   ok=TRUE;
+
+   while(ok && (len=osRead(ifh,copybuf,COPYBUFSIZE)))
 	{
       if(!osWrite(ofh,copybuf,len))
-			{ ioerror=TRUE; ioerrornum=osError(); }
+			ok=FALSE;
 	}
 
    free(copybuf);
 
-   osClose(ofh);
-   osClose(ifh);
+   if(!osClose(ofh))
+      ok=FALSE;
 
-   if(ioerror)
+   if(!osClose(ifh))
+      ok=FALSE;
+
+   if(!ok)
    {
+      ioerror=TRUE;
+      ioerrornum=osError();
       osDelete(newfile);
       return(FALSE);
    }
diff --git a/src/oslib_linux/osfile.c b/src/oslib_linux/osfile.c
index ceb79d2..692fdf6 100644
--- a/src/oslib_linux/osfile.c
+++ b/src/oslib_linux/osfile.c
@@ -35,10 +35,15 @@ osFile osOpen(char *name,uint32_t mode)
 
 bool osClose(osFile os)
 {
+   bool res=TRUE;
+
+   if(ferror((FILE *)os)) /* Some earlier operation failed */
+      res=FALSE;
+
    if(fclose((FILE *)os)!=0)
-      return(FALSE);
+      res=FALSE;
 
-   return(TRUE);
+   return(res);
 }
 
 int osGetChar(osFile os)
-- 
2.43.0


From 35de62519ef901e8f6be0acf87cd472a51901ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:38 +0000
Subject: [PATCH 16/95] fix: write the configuration before the mail that
 changed it is deleted

If CrashMail was killed in between, an AreaFix request was lost although
it had been answered.
---
 src/crashmail/crashmail.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/crashmail/crashmail.c b/src/crashmail/crashmail.c
index 6c80b0b..112642c 100644
--- a/src/crashmail/crashmail.c
+++ b/src/crashmail/crashmail.c
@@ -161,6 +161,17 @@ void AfterScanToss(bool success)
    if(success)
       success=ArchiveOutbound();
 
+   if(success)
+   {
+      if(config.changed)
+      {
+         LogWrite(2,SYSTEMINFO,"Updating configuration file \"%s\"",config.filename);
+
+         if(!UpdateConfig(&config,errbuf))
+            LogWrite(1,SYSTEMERR,"%s",errbuf);
+      }
+   }
+
    if(init_dupedb)
       UpdateDupeDB(success);
 
@@ -217,14 +228,6 @@ void AfterScanToss(bool success)
       }
 
       WriteStats(config.cfg_StatsFile);
-
-      if(config.changed)
-      {
-         LogWrite(2,SYSTEMINFO,"Updating configuration file \"%s\"",config.filename);
-
-         if(!UpdateConfig(&config,errbuf))
-            LogWrite(1,SYSTEMERR,errbuf);
-      }
    }
 
    if(config.cfg_NodelistType)
-- 
2.43.0


From ced6433596ffc2648ec91cb356a19c160250fa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:08 +0000
Subject: [PATCH 17/95] fix: replace the index of bundle names atomically

---
 src/crashmail/outbound.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index 941221f..20abe71 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -122,14 +122,13 @@ void MakeBaseName(struct Node4D *n4d,char *basename)
 void WriteIndex(void)
 {
 	osFile fh;
-	char buf[200];
+	char buf[200],name[200],tmpname[200];
 	struct ConfigNode *cnode;
 
-	MakeFullPath(config.cfg_PacketDir,"cmindex",buf,200);
+	MakeFullPath(config.cfg_PacketDir,"cmindex",name,200);
+	MakeFullPath(config.cfg_PacketDir,"cmindex.tmp",tmpname,200);
 
-	/* Get basenum */
-
-	if(!(fh=osOpen(buf,MODE_NEWFILE)))
+	if(!(fh=osOpen(tmpname,MODE_NEWFILE)))
 		return;
 
 	for(cnode=(struct ConfigNode *)config.CNodeList.First;cnode;cnode=cnode->Next)
@@ -139,7 +138,8 @@ void WriteIndex(void)
 			osFPrintf(fh,"%s %s\n",buf,cnode->LastArcName);
 		}
 
-	osClose(fh);
+	if(!osClose(fh) || !osRename(tmpname,name))
+		osDelete(tmpname);
 }
 
 void ReadIndex(void)
-- 
2.43.0


From bb374ca841a945f2a2048f88f840ac7d28b0e6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:42 +0000
Subject: [PATCH 18/95] fix: add flow file entries atomically and notice write
 errors

A half-written line damaged the flow file, and entries marked as sent (~)
kept a new file with the same name from being queued.
---
 src/crashmail/outbound.c | 154 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 134 insertions(+), 20 deletions(-)

diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index 20abe71..0bf66f3 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -474,12 +474,88 @@ void MakeOrphan(char *file,struct Node4D *n4d,char type,long mode)
    osClose(fh);
 }
 
+#define COPYBUFSIZE 5000
+
+/* Appends the bytes from start to end (-1 is end of file) of a file to ofh */
+
+bool AppendFilePart(char *file,off_t start,off_t end,osFile ofh)
+{
+   osFile ifh;
+   char *copybuf;
+   uint32_t len,max;
+   bool ok;
+
+   if(!(copybuf=(char *)osAlloc(COPYBUFSIZE)))
+   {
+      nomem=TRUE;
+      return(FALSE);
+   }
+
+   if(!(ifh=osOpen(file,MODE_OLDFILE)))
+   {
+		uint32_t err=osError();
+      LogWrite(1,SYSTEMERR,"Failed to open \"%s\"",file);
+		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+      osFree(copybuf);
+      return(FALSE);
+   }
+
+   osSeek(ifh,start,OFFSET_BEGINNING);
+
+   ok=TRUE;
+
+   while(ok && (end == -1 || start < end))
+   {
+      max=COPYBUFSIZE;
+
+      if(end != -1 && end-start < COPYBUFSIZE)
+         max=end-start;
+
+      if(!(len=osRead(ifh,copybuf,max)))
+         break;
+
+      ok=osWrite(ofh,copybuf,len);
+      start+=len;
+   }
+
+   if(end != -1 && start != end)
+      ok=FALSE;
+
+   if(!osClose(ifh))
+      ok=FALSE;
+
+   osFree(copybuf);
+
+   return(ok);
+}
+
+/* Returns the size of a file, -1 if it does not exist */
+
+off_t FileSize(char *file)
+{
+   osFile fh;
+   off_t size;
+
+   if(!osExists(file))
+      return(-1);
+
+   if(!(fh=osOpen(file,MODE_OLDFILE)))
+      return(-1);
+
+   osSeek(fh,0,OFFSET_END);
+   size=osFTell(fh);
+   osClose(fh);
+
+   return(size);
+}
+
 /* Only call if file is already locked */
 /* MakeOrphan() should be called if necessary */
 bool doAddFlow(char *filename,char *basename,char type,long mode)
 {
-   char buf[200],letter,*prefix;
+   char buf[200],flowname[200],tmpname[200],letter,*prefix;
    osFile fh;
+   bool ok,newline;
 
    switch(type)
    {
@@ -495,33 +571,61 @@ bool doAddFlow(char *filename,char *basename,char type,long mode)
       default:            letter='f';
    }
 
-   sprintf(buf,"%s.%clo",basename,letter);
+   sprintf(flowname,"%s.%clo",basename,letter);
+   sprintf(tmpname,"%s.tmp",basename);
+
+   newline=FALSE;
 
-   if(!(fh=osOpen(buf,MODE_READWRITE)))
+   if(osExists(flowname))
+   {
+      if(!(fh=osOpen(flowname,MODE_OLDFILE)))
+      {
+		   uint32_t err=osError();
+         LogWrite(1,SYSTEMERR,"Failed to open \"%s\"",flowname);
+		   LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+         return(FALSE);
+      }
+
+      while(osFGets(fh,buf,200))
+      {
+         newline=(buf[strlen(buf)-1] != 10); /* Unfinished last line? */
+
+         striptrail(buf);
+
+         if(buf[0]=='~') continue; /* Has already been sent */
+
+         if(buf[0]=='#') memmove(buf, buf + 1, strlen (buf));
+         if(buf[0]=='^') memmove(buf, buf + 1, strlen (buf));
+         if(buf[0]=='-') memmove(buf, buf + 1, strlen (buf));
+
+         if(stricmp(buf,filename)==0)
+         {
+            osClose(fh);
+            return(TRUE); /* Was already in flow file */
+         }
+      }
+
+      osClose(fh);
+   }
+
+   /* Make a new flow file which then replaces the old one, so that there
+      is no half-written line if something goes wrong */
+
+   if(!(fh=osOpen(tmpname,MODE_NEWFILE)))
    {
 		uint32_t err=osError();
-      LogWrite(1,SYSTEMERR,"Failed to open \"%s\"",buf);
+      LogWrite(1,SYSTEMERR,"Failed to open \"%s\"",tmpname);
 		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
       return(FALSE);
    }
 
-   while(osFGets(fh,buf,200))
-   {
-      striptrail(buf);
+   ok=TRUE;
 
-      if(buf[0]=='#') memmove(buf, buf + 1, strlen (buf));
-      if(buf[0]=='~') memmove(buf, buf + 1, strlen (buf));
-      if(buf[0]=='^') memmove(buf, buf + 1, strlen (buf));
-      if(buf[0]=='-') memmove(buf, buf + 1, strlen (buf));
+   if(osExists(flowname))
+      ok=AppendFilePart(flowname,0,-1,fh);
 
-      if(stricmp(buf,filename)==0)
-      {
-         osClose(fh);
-         return(TRUE); /* Was already in flow file */
-      }
-   }
-
-   osSeek(fh,0,OFFSET_END);
+   if(newline)
+      osPuts(fh,(config.cfg_Flags & CFG_FLOWCRLF) ? "\r\n" : "\n");
 
    prefix="";
 
@@ -534,7 +638,17 @@ bool doAddFlow(char *filename,char *basename,char type,long mode)
    if(config.cfg_Flags & CFG_FLOWCRLF) osFPrintf(fh,"%s%s\r\n",prefix,filename);
    else                         osFPrintf(fh,"%s%s\n",prefix,filename);
 
-   osClose(fh);
+   if(!osClose(fh))
+      ok=FALSE;
+
+   if(!ok || !osRename(tmpname,flowname))
+   {
+		uint32_t err=osError();
+      LogWrite(1,SYSTEMERR,"Failed to write \"%s\"",flowname);
+		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+      osDelete(tmpname);
+      return(FALSE);
+   }
 
    return(TRUE);
 }
-- 
2.43.0


From f8b1876ef510fc59b3b01b7199324548c2cfd682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:51 +0000
Subject: [PATCH 19/95] fix: keep queued packets until they are in the bundle,
 flow file or netmail packet

A packet left over from an earlier run was renamed before it was packed and
was lost if the program was killed then. Netmail was appended in place to the
packet waiting in the outbound, which a write error or kill damaged together
with the mail already in it. Failing to write a flow file and the orphan file
lost the bundle. Unpacked echomail for a node no longer in the configuration
crashed.
---
 src/crashmail/outbound.c | 169 +++++++++++++++++++++------------------
 1 file changed, 92 insertions(+), 77 deletions(-)

diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index 0bf66f3..15dbf7e 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -448,20 +448,20 @@ void HandleOrphan(char *name)
 	UnlockBasename(basename);
 }
 
-void MakeOrphan(char *file,struct Node4D *n4d,char type,long mode)
+bool MakeOrphan(char *file,struct Node4D *n4d,char type,long mode)
 {
-   char buf[200];
+   char buf[200],orphanname[200];
    osFile fh;
 
-   strcpy(buf,file);
-   strcat(buf,".orphan");
+   strcpy(orphanname,file);
+   strcat(orphanname,".orphan");
 
-   if(!(fh=osOpen(buf,MODE_NEWFILE)))
+   if(!(fh=osOpen(orphanname,MODE_NEWFILE)))
    {
 		uint32_t err=osError();
-      LogWrite(1,SYSTEMERR,"Failed to open \"%s\", cannot make .orphan file",buf);
+      LogWrite(1,SYSTEMERR,"Failed to open \"%s\", cannot make .orphan file",orphanname);
 		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
-      return;
+      return(FALSE);
    }
 
    sprintf(buf,"%s %d:%d/%d.%d",prinames[(int)type],n4d->Zone,n4d->Net,n4d->Node,n4d->Point);
@@ -471,7 +471,17 @@ void MakeOrphan(char *file,struct Node4D *n4d,char type,long mode)
    strcat(buf,"\n");
 
    osPuts(fh,buf);
-   osClose(fh);
+
+   if(!osClose(fh))
+   {
+		uint32_t err=osError();
+      LogWrite(1,SYSTEMERR,"Failed to write \"%s\"",orphanname);
+		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+      osDelete(orphanname);
+      return(FALSE);
+   }
+
+   return(TRUE);
 }
 
 #define COPYBUFSIZE 5000
@@ -713,17 +723,17 @@ void UpdateFile(char *name)
 	}
 }
 
-#define COPYBUFSIZE 5000
-
 bool PackFile(char *file)
 {
-   char basename[200],arcname[200],pktname[200],buf[200],buf2[200],*copybuf;
-   uint32_t jbcpos,readlen;
+   char basename[200],arcname[200],pktname[200],buf[200],buf2[200];
+   uint32_t jbcpos;
    int c,res;
    struct Node4D n4d;
-   char type;
+   char type,pri;
 	char letter;
-	osFile ifh,ofh;
+	osFile ofh;
+	off_t start,size;
+	bool ok;
 
    /* Parse filename */
 
@@ -809,7 +819,14 @@ bool PackFile(char *file)
 				cnode->Node.Point,
 				cnode->Packer->Name);
 
-         osRename(file,pktname);
+         /* Pack a copy, the original is kept until the bundle is queued */
+
+         if(!copyfile(file,pktname))
+         {
+            LogWrite(1,SYSTEMERR,"Failed to copy file \"%s\" to \"%s\"",file,pktname);
+				UnlockBasename(basename);
+				return(FALSE);
+         }
 
          if(config.cfg_BeforePack[0])
          {
@@ -818,7 +835,7 @@ bool PackFile(char *file)
 
             if(res != 0)
             {
-	            osRename(pktname,file);
+	            osDelete(pktname);
                LogWrite(1,SYSTEMERR,"BEFOREPACK command failed: %u",res);
 	   			UnlockBasename(basename);
    				return(FALSE);
@@ -828,18 +845,23 @@ bool PackFile(char *file)
          ExpandPacker(cnode->Packer->Packer,buf,200,arcname,pktname);
          res=osExecute(buf);
 
+         osDelete(pktname);
+
          if(res == 0)
          {
 				UpdateFile(arcname);
 
-            osDelete(pktname);
-
             if(!doAddFlow(arcname,basename,cnode->EchomailPri,FLOW_DELETE))
-               MakeOrphan(arcname,&n4d,cnode->EchomailPri,FLOW_DELETE);
+               if(!MakeOrphan(arcname,&n4d,cnode->EchomailPri,FLOW_DELETE))
+               {
+					   UnlockBasename(basename);
+					   return(FALSE);
+               }
+
+            osDelete(file);
          }
          else
          {
-	         osRename(pktname,file);
             LogWrite(1,SYSTEMERR,"Packer failed: %u",res);
 				UnlockBasename(basename);
 				return(FALSE);
@@ -855,22 +877,29 @@ bool PackFile(char *file)
 
 			LogWrite(4,TOSSINGINFO,"Sending %s unpacked to %d:%d/%d.%d",
 				GetFilePart(pktname),
-				cnode->Node.Zone,
-				cnode->Node.Net,
-				cnode->Node.Node,
-				cnode->Node.Point);
+				n4d.Zone,
+				n4d.Net,
+				n4d.Node,
+				n4d.Point);
 
-         if(!movefile(file,pktname))
+         if(!copyfile(file,pktname))
          {
-            LogWrite(1,SYSTEMERR,"Failed to move file \"%s\" to \"%s\"",file,pktname);
+            LogWrite(1,SYSTEMERR,"Failed to copy file \"%s\" to \"%s\"",file,pktname);
 				UnlockBasename(basename);
 				return(FALSE);
          }
-         else
-         {
-            if(!doAddFlow(pktname,basename,cnode->EchomailPri,FLOW_DELETE))
-               MakeOrphan(pktname,&n4d,cnode->EchomailPri,FLOW_DELETE);
-         }
+
+         pri=(cnode ? cnode->EchomailPri : PKTS_NORMAL);
+
+         if(!doAddFlow(pktname,basename,pri,FLOW_DELETE))
+            if(!MakeOrphan(pktname,&n4d,pri,FLOW_DELETE))
+            {
+               osDelete(pktname);
+				   UnlockBasename(basename);
+				   return(FALSE);
+            }
+
+         osDelete(file);
       }
    }
    else
@@ -902,71 +931,57 @@ bool PackFile(char *file)
 			n4d.Point,
 			prinames[(int)type]);
 
-		if(!(copybuf=(char *)osAlloc(COPYBUFSIZE)))
-		{
-			nomem=TRUE;
-			UnlockBasename(basename);
-			return(FALSE);
-		}
-		
-		if(!(ifh=osOpen(file,MODE_OLDFILE)))
+		/* Make a new file which then replaces the old one, so that nothing
+		   already there is lost if something goes wrong */
+
+		strcpy(buf2,basename);
+		strcat(buf2,".tmp");
+
+		if(!(ofh=osOpen(buf2,MODE_NEWFILE)))
 		{
 			uint32_t err=osError();
-			LogWrite(1,SYSTEMERR,"Failed to open \"%s\"",file);
-			LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));		
-			osFree(copybuf);
+			LogWrite(1,SYSTEMERR,"Failed to open \"%s\"",buf2);
+			LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
 			UnlockBasename(basename);
 			return(FALSE);
 		}
-		
+
+		start=0;
+		ok=TRUE;
+
 		if(osExists(buf))
 		{
-			if(!(ofh=osOpen(buf,MODE_READWRITE)))
-			{
-				uint32_t err=osError();
-				LogWrite(1,SYSTEMERR,"Failed to open \"%s\"",file);
-				LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));		
-				osClose(ifh);
-				osFree(copybuf);
-				UnlockBasename(basename);
-				return(FALSE);
-			}
+			if((size=FileSize(buf)) < 0)
+				ok=FALSE;
 
-			osSeek(ifh,SIZE_PKTHEADER,OFFSET_BEGINNING);
-			osSeek(ofh,-2,OFFSET_END);
-		}
-		else
-		{
-			if(!(ofh=osOpen(buf,MODE_NEWFILE)))
+			else if(size >= SIZE_PKTHEADER+2)
 			{
-				uint32_t err=osError();
-				LogWrite(1,SYSTEMERR,"Failed to open \"%s\"",file);
-				LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));		
-				osClose(ifh);
-				osFree(copybuf);
-				UnlockBasename(basename);
-				return(FALSE);
+				ok=AppendFilePart(buf,0,size-2,ofh);
+				start=SIZE_PKTHEADER;
 			}
 		}
 
-		while((readlen=osRead(ifh,copybuf,COPYBUFSIZE)))
+		if(ok)
+			ok=AppendFilePart(file,start,-1,ofh);
+
+		if(!osClose(ofh))
+			ok=FALSE;
+
+		if(!ok || !osRename(buf2,buf))
 		{
-			if(!osWrite(ofh,copybuf,readlen))
-				{ ioerror=TRUE; ioerrornum=osError(); }
+			uint32_t err=osError();
+			LogWrite(1,SYSTEMERR,"Failed to write \"%s\"",buf);
+			LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+			osDelete(buf2);
+			UnlockBasename(basename);
+			return(FALSE);
 		}
-				
-		osClose(ifh);
-		osClose(ofh);
-		osFree(copybuf);
 
 		osDelete(file);
    }
 
 	UnlockBasename(basename);
-	
-	if(ioerror)
-		return(FALSE);
-	
+
 	return(TRUE);
 }
 
-- 
2.43.0


From eb5c4eaff5a78e92e8a303209a2f6ac462068dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:01 +0000
Subject: [PATCH 20/95] fix: never use a packet number twice

The serial number wrapped at 256 packets in a second and knew nothing of
earlier runs in the same second or of the clock being set back. A second packet
of the same name then replaced a queued one, or its namesake in a bundle.
---
 src/crashmail/pkt.c | 78 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 66 insertions(+), 12 deletions(-)

diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index d0ccc3b..228d615 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -556,30 +556,81 @@ struct Pkt *FindPkt(struct Node4D *node,struct Node4D *mynode,uint16_t type)
    return(NULL);
 }
 
-static time_t lastt;
-static uint32_t serial;
+/* The number of the last packet is remembered between the runs, so that a name
+   is not used again if the runs follow each other quickly or the clock is set
+   back */
+
+static uint32_t lastnum;
+static bool lastnumread,lastnumchanged;
+
+static void ReadLastNum(void)
+{
+   osFile fh;
+   char buf[200];
+
+   lastnumread=TRUE;
+
+   MakeFullPath(config.cfg_PacketDir,"cmserial",buf,200);
+
+   if(!osExists(buf) || !(fh=osOpen(buf,MODE_OLDFILE)))
+      return;
+
+   if(osFGets(fh,buf,200))
+      lastnum=hextodec(buf);
+
+   osClose(fh);
+}
+
+static void WriteLastNum(void)
+{
+   osFile fh;
+   char name[200],tmpname[200];
+
+   MakeFullPath(config.cfg_PacketDir,"cmserial",name,200);
+   MakeFullPath(config.cfg_PacketDir,"cmserial.tmp",tmpname,200);
+
+   if(!(fh=osOpen(tmpname,MODE_NEWFILE)))
+      return;
+
+   osFPrintf(fh,"%08x\n",lastnum);
+
+   if(!osClose(fh) || !osRename(tmpname,name))
+      osDelete(tmpname);
+
+   lastnumchanged=FALSE;
+}
 
 struct Pkt *CreatePkt(struct Node4D *dest,struct ConfigNode *node,struct Node4D *orig,uint16_t type)
 {
-   char buf[100],buf2[100];
+   char buf[200],buf2[100],queuedname[200];
    struct Pkt *pkt;
    uint32_t num;
    time_t t;
    struct tm *tp;
    uint8_t PktHeader[SIZE_PKTHEADER];
 
+   if(!lastnumread)
+      ReadLastNum();
+
    do
    {
-      t=time(NULL);
-      if(t == lastt) serial++;
-      else serial=0;
-      if(serial == 256) serial=0;
-      lastt=t; 
-      num = (t<<8) + serial;
+      num=((uint32_t)time(NULL))<<8;
+
+      if(lastnum && (int32_t)(num-lastnum) <= 0)
+         num=lastnum+1;
+
+      if(num == 0)
+         num=1;
+
+      lastnum=num;
+      lastnumchanged=TRUE;
+
       sprintf(buf2,"%08x.newpkt",num);
-      
-      MakeFullPath(config.cfg_PacketCreate,buf2,buf,100);
-   } while(osExists(buf));
+      MakeFullPath(config.cfg_PacketCreate,buf2,buf,200);
+
+      sprintf(buf2,"%08x.pkt",num);
+      MakeFullPath(config.cfg_PacketDir,buf2,queuedname,200);
+   } while(osExists(buf) || osExists(queuedname));
 
    if(!(pkt=(struct Pkt *)osAllocCleared(sizeof(struct Pkt))))
    {
@@ -719,6 +770,9 @@ void ClosePackets(void)
       FinishPacket(pkt);
       pkt=pkt2;
    }
+
+   if(lastnumchanged)
+      WriteLastNum();
 }
 
 bool WriteMsgHeader(struct Pkt *pkt,struct MemMessage *mm)
-- 
2.43.0


From 6e235a575774e40fecb2058c333cbe865309e198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:52 +0000
Subject: [PATCH 21/95] fix: mark exported messages as sent only when their
 packets are stored

Messages were marked as sent (or deleted with KILLSENT) as soon as they had
been written to a temporary packet. If the scan then failed or was interrupted
the packet was thrown away by the next run and the message was never sent.
Rewriting a message with MSG_WRITEBACK no longer truncates it first.
---
 src/crashmail/mb_jam.c | 107 +++++++++++++++++++++++++++++------------
 src/crashmail/mb_msg.c | 100 +++++++++++++++++++++++++++++++++-----
 2 files changed, 163 insertions(+), 44 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 2110ea0..47adaa0 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -21,6 +21,16 @@ struct jam_Area
    uint32_t OldHighWater;
    uint32_t HighWater;
    bool newmsg;
+   struct jbList SentList;
+};
+
+/* Messages to mark as sent when all packets have been stored */
+
+struct jam_Sent
+{
+   struct jam_Sent *Next;
+   uint32_t num;
+   bool kill;
 };
 
 struct jbList jam_AreaList;
@@ -213,11 +223,69 @@ bool jam_beforefunc(void)
    return(TRUE);
 }
 
+static void jam_marksent(struct jam_Area *ja)
+{
+   struct jam_Sent *sent;
+   s_JamMsgHeader Header_S;
+
+   if(!ja->SentList.First)
+      return;
+
+   /* jam_openbases might have been changed */
+
+   if(!jam_getarea(ja->area))
+   {
+      LogWrite(1,SYSTEMERR,"Failed to open JAM messagebase \"%s\"",ja->area->Path);
+      return;
+   }
+
+   if(JAM_LockMB(ja->Base_PS,10))
+   {
+      LogWrite(1,SYSTEMERR,"Timeout when trying to lock JAM messagebase \"%s\"",ja->area->Path);
+      return;
+   }
+
+   for(sent=(struct jam_Sent *)ja->SentList.First;sent;sent=sent->Next)
+   {
+      if(JAM_ReadMsgHeader(ja->Base_PS,sent->num-ja->BaseNum,&Header_S,NULL))
+      {
+         LogWrite(1,TOSSINGERR,"Failed to read message #%u in JAM messagebase \"%s\"",sent->num,ja->area->Path);
+         continue;
+      }
+
+      if(sent->kill)
+      {
+         /* Delete message with KILLSENT flag */
+
+         LogWrite(2,TOSSINGINFO,"Deleting message with KILLSENT flag");
+         Header_S.Attribute |= MSG_DELETED;
+      }
+
+      Header_S.Attribute |= MSG_SENT;
+
+      Header_S.DateProcessed = time(NULL);
+      Header_S.DateProcessed -= jam_utcoffset;
+
+      if(JAM_ChangeMsgHeader(ja->Base_PS,sent->num-ja->BaseNum,&Header_S))
+         LogWrite(1,TOSSINGERR,"Failed to update header of message #%u in JAM messagebase \"%s\"",sent->num,ja->area->Path);
+   }
+
+   JAM_UnlockMB(ja->Base_PS);
+}
+
 bool jam_afterfunc(bool success)
 {
    int c;
    struct jam_Area *ja;
 
+   for(ja=(struct jam_Area *)jam_AreaList.First;ja;ja=ja->Next)
+   {
+      if(success)
+         jam_marksent(ja);
+
+      jbFreeList(&ja->SentList);
+   }
+
    if(success && (config.cfg_jam_Flags & CFG_JAM_HIGHWATER))
       for(ja=(struct jam_Area *)jam_AreaList.First;ja;ja=ja->Next)
          if(ja->HighWater != ja->OldHighWater)
@@ -644,6 +712,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
    bool hasaddr;
    char flagsbuf[200],filesubject[200];
    uint16_t oldattr;
+   struct jam_Sent *sent;
 
    /* Open the area */
 
@@ -985,43 +1054,19 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
    {
       scan_total++;
 
-	   /* Update message header */
-
-		if(config.cfg_Flags & CFG_ALLOWKILLSENT)
-		{
-			if((oldattr & FLAG_KILLSENT) && (area->AreaType == AREATYPE_NETMAIL))
-			{
-				/* Delete message with KILLSENT flag */
-
-				LogWrite(2,TOSSINGINFO,"Deleting message with KILLSENT flag");
-		   	Header_S.Attribute |= MSG_DELETED;
-			}
-		}
-
-	   Header_S.Attribute |= MSG_SENT;
-
-      Header_S.DateProcessed = time(NULL);
-      Header_S.DateProcessed -= jam_utcoffset;
-
-      /* jam_openbases might have been changed in handlefunc */
-
-      if(!(ja=jam_getarea(area)))
+      if(!(sent=osAllocCleared(sizeof(struct jam_Sent))))
       {
+         nomem=TRUE;
          mmFree(mm);
          return(FALSE);
       }
 
-      if(JAM_LockMB(ja->Base_PS,10))
-   	{
-      	LogWrite(1,SYSTEMERR,"Timeout when trying to lock JAM messagebase \"%s\"",area->Path);
-         mmFree(mm);
-         return(FALSE);
-	   }
+      jbAddNode(&ja->SentList,(struct jbNode *)sent);
+      sent->num=num;
 
-      if(JAM_ChangeMsgHeader(ja->Base_PS,num-ja->BaseNum,&Header_S))
-         LogWrite(1,TOSSINGERR,"Failed to update header of message #%u in JAM messagebase \"%s\"",num,area->Path);
-
-      JAM_UnlockMB(ja->Base_PS);
+		if(config.cfg_Flags & CFG_ALLOWKILLSENT)
+			if((oldattr & FLAG_KILLSENT) && (area->AreaType == AREATYPE_NETMAIL))
+				sent->kill=TRUE;
    }
 
    mmFree(mm);
diff --git a/src/crashmail/mb_msg.c b/src/crashmail/mb_msg.c
index 25e99cf..679e2f3 100644
--- a/src/crashmail/mb_msg.c
+++ b/src/crashmail/mb_msg.c
@@ -8,6 +8,18 @@ struct msg_Area
    uint32_t HighMsg;
    uint32_t OldHighWater;
    uint32_t HighWater;
+   struct jbList SentList;
+};
+
+/* Messages to mark as sent when all packets have been stored */
+
+struct msg_Sent
+{
+   struct msg_Sent *Next;
+   uint32_t num;
+   bool kill;
+   struct StoredMsg Msg;  /* New header of the message */
+   struct MemMessage *mm; /* Message to write back, if any */
 };
 
 bool msg_GetHighLowMsg(struct msg_Area *area);
@@ -54,9 +66,70 @@ bool msg_beforefunc(void)
    return(TRUE);
 }
 
+static void msg_MarkSent(struct msg_Area *ma,struct msg_Sent *sent)
+{
+   char buf[200],buf2[20],tmpname[200];
+   osFile fh;
+   bool ok;
+
+   sprintf(buf2,"%u.msg",sent->num);
+   MakeFullPath(ma->area->Path,buf2,buf,200);
+
+   if(sent->kill)
+   {
+      LogWrite(2,TOSSINGINFO,"Deleting message with KILLSENT flag");
+      osDelete(buf);
+      return;
+   }
+
+   if(sent->mm)
+   {
+      sprintf(buf2,"%u.tmp",sent->num);
+      MakeFullPath(ma->area->Path,buf2,tmpname,200);
+
+      ok=msg_WriteMSG(sent->mm,tmpname);
+
+      if(ok)
+         ok=osRename(tmpname,buf);
+
+      if(!ok)
+         osDelete(tmpname);
+   }
+   else
+   {
+      ok=FALSE;
+
+      if((fh=osOpen(buf,MODE_READWRITE)))
+      {
+         ok=osWrite(fh,&sent->Msg,sizeof(struct StoredMsg));
+
+         if(!osClose(fh))
+            ok=FALSE;
+      }
+   }
+
+   if(!ok)
+      LogWrite(1,SYSTEMERR,"Failed to mark message %s as sent",buf);
+}
+
 bool msg_afterfunc(bool success)
 {
    struct msg_Area *ma;
+   struct msg_Sent *sent;
+
+   for(ma=(struct msg_Area *)msg_AreaList.First;ma;ma=ma->Next)
+   {
+      for(sent=(struct msg_Sent *)ma->SentList.First;sent;sent=sent->Next)
+      {
+         if(success)
+            msg_MarkSent(ma,sent);
+
+         if(sent->mm)
+            mmFree(sent->mm);
+      }
+
+      jbFreeList(&ma->SentList);
+   }
 
    if(success && (config.cfg_msg_Flags & CFG_MSG_HIGHWATER))
       for(ma=(struct msg_Area *)msg_AreaList.First;ma;ma=ma->Next)
@@ -174,6 +247,7 @@ bool msg_ExportMSGNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
    struct MemMessage *mm;
 	uint16_t oldattr;
    struct msg_Area *ma;
+   struct msg_Sent *sent;
 
    if(!(ma=msg_getarea(area)))
       return(FALSE);
@@ -303,34 +377,34 @@ bool msg_ExportMSGNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
    {
       scan_total++;
 
-      sprintf(buf2,"%u.msg",num);
-      MakeFullPath(area->Path,buf2,buf,200);
+      if(!(sent=osAllocCleared(sizeof(struct msg_Sent))))
+      {
+         nomem=TRUE;
+         mmFree(mm);
+         return(FALSE);
+      }
+
+      jbAddNode(&ma->SentList,(struct jbNode *)sent);
+      sent->num=num;
 
 		if((config.cfg_Flags & CFG_ALLOWKILLSENT) && (oldattr & FLAG_KILLSENT) && (area->AreaType == AREATYPE_NETMAIL))
 		{
 			/* Delete message with KILLSENT flag */
 
-			LogWrite(2,TOSSINGINFO,"Deleting message with KILLSENT flag");
-		   osDelete(buf);
+			sent->kill=TRUE;
 		}
 		else
 		{
          ma->HighWater=num;
 
          Msg.Attr|=FLAG_SENT;
+         sent->Msg=Msg;
 
    	   if(config.cfg_msg_Flags & CFG_MSG_WRITEBACK)
       	{
          	mm->Attr=Msg.Attr;
-	         msg_WriteMSG(mm,buf);
-   	   }
-      	else
-	      {
-   	      if((fh=osOpen(buf,MODE_READWRITE)))
-      	   {
-         	   osWrite(fh,&Msg,sizeof(struct StoredMsg));
-            	osClose(fh);
-	         }
+         	sent->mm=mm;
+         	return(TRUE);
    	   }
 		}
    }
-- 
2.43.0


From 498649bd28252d96ed86d2e2405034b5becd1b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:55 +0000
Subject: [PATCH 22/95] fix: notice write errors when storing *.msg messages
 and never overwrite one

An error showing up when the file was closed was ignored and the inbound mail
deleted. The file is created exclusively, so that a message written by another
program at the same time is not overwritten, and removed if it is incomplete.
---
 src/crashmail/mb_msg.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/mb_msg.c b/src/crashmail/mb_msg.c
index 679e2f3..4507038 100644
--- a/src/crashmail/mb_msg.c
+++ b/src/crashmail/mb_msg.c
@@ -87,6 +87,7 @@ static void msg_MarkSent(struct msg_Area *ma,struct msg_Sent *sent)
       sprintf(buf2,"%u.tmp",sent->num);
       MakeFullPath(ma->area->Path,buf2,tmpname,200);
 
+      osDelete(tmpname);
       ok=msg_WriteMSG(sent->mm,tmpname);
 
       if(ok)
@@ -574,7 +575,7 @@ bool msg_WriteMSG(struct MemMessage *mm,char *file)
       Msg.OrigPoint  =  0;
    }
 
-   if(!(fh=osOpen(file,MODE_NEWFILE)))
+   if(!(fh=osOpen(file,MODE_EXCLUSIVE)))
    {
       printf("Failed to write to %s\n",file);
       return(FALSE);
@@ -602,6 +603,7 @@ bool msg_WriteMSG(struct MemMessage *mm,char *file)
       if(!(sbbuf=mmMakeSeenByBuf(&mm->SeenBy)))
       {
          osClose(fh);
+         osDelete(file);
          return(FALSE);
       }
 
@@ -633,10 +635,14 @@ bool msg_WriteMSG(struct MemMessage *mm,char *file)
    if(!osPutChar(fh,0))
 		{ ioerror=TRUE; ioerrornum=osError(); }
 
-   osClose(fh);
+   if(!osClose(fh))
+		{ ioerror=TRUE; ioerrornum=osError(); }
 
    if(ioerror)
+   {
+      osDelete(file);
       return(FALSE);
+   }
 
    return(TRUE);
 }
-- 
2.43.0


From 14d0240bba96a96f625d1abd0c1131fa9f453297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:17 +0000
Subject: [PATCH 23/95] fix: do not truncate an existing file that cannot be
 opened for writing

---
 src/crashmail/mb_msg.c   | 2 +-
 src/oslib_linux/osfile.c | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/mb_msg.c b/src/crashmail/mb_msg.c
index 4507038..3e5c3f5 100644
--- a/src/crashmail/mb_msg.c
+++ b/src/crashmail/mb_msg.c
@@ -100,7 +100,7 @@ static void msg_MarkSent(struct msg_Area *ma,struct msg_Sent *sent)
    {
       ok=FALSE;
 
-      if((fh=osOpen(buf,MODE_READWRITE)))
+      if(osExists(buf) && (fh=osOpen(buf,MODE_READWRITE)))
       {
          ok=osWrite(fh,&sent->Msg,sizeof(struct StoredMsg));
 
diff --git a/src/oslib_linux/osfile.c b/src/oslib_linux/osfile.c
index 692fdf6..79f17c6 100644
--- a/src/oslib_linux/osfile.c
+++ b/src/oslib_linux/osfile.c
@@ -7,6 +7,7 @@
 #include <shared/types.h>
 
 #include <oslib/osfile.h>
+#include <oslib/osmisc.h>
 
 osFile osOpen(char *name,uint32_t mode)
 {
@@ -26,7 +27,7 @@ osFile osOpen(char *name,uint32_t mode)
 	}
 	else
 	{
-   	if(!(fh=fopen(name,"r+b")))
+   	if(!(fh=fopen(name,"r+b")) && !osExists(name))
 	      fh=fopen(name,"w+b");
 	}
 	
-- 
2.43.0


From 450255ab92ced70077cfc4ea0cb3a92d7e7ea9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:46 +0000
Subject: [PATCH 24/95] fix: do not truncate a JAM messagebase that could not
 be opened

Any failure to open one of the files of an existing messagebase led to a new,
empty messagebase being created in its place.
---
 src/crashmail/mb_jam.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 47adaa0..2e74268 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -41,6 +41,30 @@ long jam_utcoffset;
 
 int jam_linkmb(struct Area *area,uint32_t oldnum);
 
+/* A base with an incomplete header has never been used */
+
+static bool jam_baseexists(char *path)
+{
+   char buf[200];
+   osFile fh;
+   off_t size;
+
+   strcpy(buf,path);
+   strcat(buf,EXT_HDRFILE);
+
+   if(!osExists(buf))
+      return(FALSE);
+
+   if(!(fh=osOpen(buf,MODE_OLDFILE)))
+      return(TRUE);
+
+   osSeek(fh,0,OFFSET_END);
+   size=osFTell(fh);
+   osClose(fh);
+
+   return(size >= sizeof(s_JamBaseHeader));
+}
+
 s_JamBase *jam_openbase(struct jam_Area *area)
 {
    int c;
@@ -84,6 +108,12 @@ s_JamBase *jam_openbase(struct jam_Area *area)
    {
       if(thisbase->Base_PS) free(thisbase->Base_PS);
 
+      if(jam_baseexists(area->area->Path))
+      {
+         LogWrite(1,SYSTEMERR,"Failed to open JAM messagebase \"%s\"",area->area->Path);
+         return(NULL);
+      }
+
       LogWrite(2,SYSTEMINFO,"Creating JAM messagebase \"%s\"",area->area->Path);
 
       if(JAM_CreateMB(area->area->Path,1,&thisbase->Base_PS))
-- 
2.43.0


From 4676d23a6d9184fd74da913af0ed9033858916da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:07 +0000
Subject: [PATCH 25/95] fix: no stale or mixed-up data in JAM messagebases

Reading the base header after locking could return old data from the stdio
buffer, so that the number of active messages was wrong when other programs
used the same base. Errors when the buffers were flushed in JAM_UnlockMB() were
ignored and part of an index record left by one misaligned all that followed.
---
 src/crashmail/mb_jam.c |  4 +++-
 src/jamlib/mbase.c     | 30 ++++++++++++++++++++++++------
 src/jamlib/message.c   |  7 +++++++
 3 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 2e74268..fc905b5 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -700,7 +700,9 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
 
    res=JAM_AddMessage(ja->Base_PS,&Header_S,SubPacket_PS,msgtext,msgpos);
 
-   JAM_UnlockMB(ja->Base_PS);
+   if(JAM_UnlockMB(ja->Base_PS) && !res)
+      res=JAM_IO_ERROR;
+
    JAM_DelSubPacket(SubPacket_PS);
    if(msgsize) osFree(msgtext);
 
diff --git a/src/jamlib/mbase.c b/src/jamlib/mbase.c
index 664f0af..02c1a8a 100644
--- a/src/jamlib/mbase.c
+++ b/src/jamlib/mbase.c
@@ -332,12 +332,18 @@ int JAM_LockMB( s_JamBase* Base_PS, int Timeout_I )
 ***********************************************************************/
 int JAM_UnlockMB( s_JamBase* Base_PS )
 {
-    fflush( Base_PS->HdrFile_PS );
-    fflush( Base_PS->TxtFile_PS );
-    fflush( Base_PS->IdxFile_PS );
-    fflush( Base_PS->LrdFile_PS );
+    int Status_I = 0;
 
-    return jam_Lock( Base_PS, 0 );
+    if ( fflush( Base_PS->HdrFile_PS ) | fflush( Base_PS->TxtFile_PS ) |
+	 fflush( Base_PS->IdxFile_PS ) | fflush( Base_PS->LrdFile_PS ) ) {
+	Base_PS->Errno_I = errno;
+	Status_I = JAM_IO_ERROR;
+    }
+
+    if ( jam_Lock( Base_PS, 0 ) )
+	return JAM_LOCK_FAILED;
+
+    return Status_I;
 }
 
 /***********************************************************************
@@ -391,7 +397,10 @@ int JAM_WriteMBHeader( s_JamBase* Base_PS, s_JamBaseHeader* Header_PS )
 	return JAM_IO_ERROR;
     }
 
-    fflush( Base_PS->HdrFile_PS );
+    if ( fflush( Base_PS->HdrFile_PS ) ) {
+	Base_PS->Errno_I = errno;
+	return JAM_IO_ERROR;
+    }
 
     return 0;
 }
@@ -586,6 +595,15 @@ int jam_Open( s_JamBase* Base_PS, char* Basename_PC, char* Mode_PC )
 	return JAM_IO_ERROR;
     }
 
+    /* No buffering. What other programs write while the message base is not
+       locked by us must be seen, and the data written must not be mixed up
+       if there is an error */
+
+    setvbuf( Base_PS->HdrFile_PS, NULL, _IONBF, 0 );
+    setvbuf( Base_PS->TxtFile_PS, NULL, _IONBF, 0 );
+    setvbuf( Base_PS->IdxFile_PS, NULL, _IONBF, 0 );
+    setvbuf( Base_PS->LrdFile_PS, NULL, _IONBF, 0 );
+
     return 0;
 }
 
diff --git a/src/jamlib/message.c b/src/jamlib/message.c
index 457f174..b03a752 100644
--- a/src/jamlib/message.c
+++ b/src/jamlib/message.c
@@ -443,6 +443,13 @@ int JAM_AddMessage( s_JamBase* 		Base_PS,
    **  Add index
    */
 
+   /* go to the place of the new record, there may be part of a record left
+      from an earlier error at the end of the file */
+   if ( fseek( Base_PS->IdxFile_PS, ( Header_PS->MsgNum - BaseHeader_S.BaseMsgNum ) * sizeof( s_JamIndex ), SEEK_SET ) ) {
+		Base_PS->Errno_I = errno;
+		return JAM_IO_ERROR;
+   }
+
    /* write index record */
    if ( 1 > fwritejamindex(Base_PS->IdxFile_PS,&Index_S) ) {
 		Base_PS->Errno_I = errno;
-- 
2.43.0


From 4afcac2721b476c0a16f555e4577b0e0667f6c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:08 +0000
Subject: [PATCH 26/95] fix: do not link JAM messages without MSGID and REPLY
 to each other

The CRC of a missing MSGID was compared as 64-bit value on 64-bit systems, so
with JAM_QUICKLINK every message without REPLY became a reply to a message
without MSGID. A message which could not be read left the messagebase locked.
---
 src/crashmail/mb_jam.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index fc905b5..d439919 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -1180,14 +1180,14 @@ bool jam_rescanfunc(struct Area *area,uint32_t max,bool (*handlefunc)(struct Mem
 
 struct Msg
 {
-   unsigned long MsgIdCRC;
-   unsigned long ReplyCRC;
-   unsigned long ReplyTo;
-   unsigned long Reply1st;
-   unsigned long ReplyNext;
-   unsigned long OldReplyTo;
-   unsigned long OldReply1st;
-   unsigned long OldReplyNext;
+   uint32_t MsgIdCRC;
+   uint32_t ReplyCRC;
+   uint32_t ReplyTo;
+   uint32_t Reply1st;
+   uint32_t ReplyNext;
+   uint32_t OldReplyTo;
+   uint32_t OldReply1st;
+   uint32_t OldReplyNext;
 };
 
 int jam_CompareMsgIdReply(s_JamBase *Base_PS,struct Msg *msgs,uint32_t msgidmsg,uint32_t replymsg)
@@ -1406,8 +1406,9 @@ int jam_linkmb(struct Area *area,uint32_t oldnum)
             Header_S.ReplyNext=msgs[c].ReplyNext;
 
             JAM_ChangeMsgHeader(ja->Base_PS,c,&Header_S);
-            JAM_UnlockMB(ja->Base_PS);
          }
+
+         JAM_UnlockMB(ja->Base_PS);
       }
 
    osFree(msgs);
-- 
2.43.0


From d95875059f122463023eb841468568a70390cf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:29 +0000
Subject: [PATCH 27/95] fix: bound the JAM subfields copied when exporting and
 export the FLAGS line

---
 src/crashmail/mb_jam.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index d439919..d55e18c 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -842,7 +842,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
       switch(Field_PS->LoID)
       {
          case JAMSFLD_OADDRESS:
-            mystrncpy(buf,Field_PS->Buffer,Field_PS->DatLen+1);
+            mystrncpy(buf,Field_PS->Buffer,MIN(Field_PS->DatLen+1,200));
 
             if(Parse5D(buf,&n4d,domain))
             {
@@ -855,7 +855,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
             break;
 
          case JAMSFLD_DADDRESS:
-            mystrncpy(buf,Field_PS->Buffer,Field_PS->DatLen+1);
+            mystrncpy(buf,Field_PS->Buffer,MIN(Field_PS->DatLen+1,200));
 
             if(hasaddr)
             {
@@ -875,12 +875,12 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
             break;
 
          case JAMSFLD_SENDERNAME:
-            mystrncpy(buf,Field_PS->Buffer,Field_PS->DatLen+1);
+            mystrncpy(buf,Field_PS->Buffer,MIN(Field_PS->DatLen+1,200));
             mystrncpy(mm->From,buf,36);
             break;
 
          case JAMSFLD_RECVRNAME:
-            mystrncpy(buf,Field_PS->Buffer,Field_PS->DatLen+1);
+            mystrncpy(buf,Field_PS->Buffer,MIN(Field_PS->DatLen+1,200));
             mystrncpy(mm->To,buf,36);
             break;
 
@@ -893,7 +893,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
             break;
 
          case JAMSFLD_SUBJECT:
-            mystrncpy(buf,Field_PS->Buffer,Field_PS->DatLen+1);
+            mystrncpy(buf,Field_PS->Buffer,MIN(Field_PS->DatLen+1,200));
             mystrncpy(mm->Subject,buf,72);
             break;
 
@@ -903,7 +903,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
 
          case JAMSFLD_ENCLFILE:
             if(filesubject[0]) LogWrite(1,TOSSINGERR,"Warning: Multiple ENCLOSEDFILE not supported by CrashMail");
-            else mystrncpy(filesubject,Field_PS->Buffer,Field_PS->DatLen+1);
+            else mystrncpy(filesubject,Field_PS->Buffer,MIN(Field_PS->DatLen+1,200));
             break;
 
          case JAMSFLD_ENCLFREQ:
@@ -936,7 +936,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
 
          case JAMSFLD_FLAGS:
             strcpy(flagsbuf,"\x01" "FLAGS: ");
-            mystrncpy(&flagsbuf[8],Field_PS->Buffer,Field_PS->DatLen+1);
+            mystrncpy(&flagsbuf[8],Field_PS->Buffer,MIN(Field_PS->DatLen+1,100));
             /* Don't add until attributes from header has been added */
             break;
       }
@@ -972,7 +972,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
    if(flagsbuf[0])
    {
       strcat(flagsbuf,"\x0d");
-      mmAddLine(mm,buf);
+      mmAddLine(mm,flagsbuf);
    }
 
    oldattr = mm->Attr;
-- 
2.43.0


From fb84b84f960e48355ab6d33f4dfa8056b7878f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:19 +0000
Subject: [PATCH 28/95] fix: create a JAM messagebase anew if its header was
 never written

---
 src/crashmail/mb_jam.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index d55e18c..675e5c3 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -104,16 +104,17 @@ s_JamBase *jam_openbase(struct jam_Area *area)
 
    /* Open area */
 
-   if(JAM_OpenMB(area->area->Path,&thisbase->Base_PS))
+   if(jam_baseexists(area->area->Path))
    {
-      if(thisbase->Base_PS) free(thisbase->Base_PS);
-
-      if(jam_baseexists(area->area->Path))
+      if(JAM_OpenMB(area->area->Path,&thisbase->Base_PS))
       {
+         if(thisbase->Base_PS) free(thisbase->Base_PS);
          LogWrite(1,SYSTEMERR,"Failed to open JAM messagebase \"%s\"",area->area->Path);
          return(NULL);
       }
-
+   }
+   else
+   {
       LogWrite(2,SYSTEMINFO,"Creating JAM messagebase \"%s\"",area->area->Path);
 
       if(JAM_CreateMB(area->area->Path,1,&thisbase->Base_PS))
-- 
2.43.0


From 4c8dfdba8ec1926feb868603328ffe3d0e95e245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:33 +0000
Subject: [PATCH 29/95] fix: notice that there was no memory for the SEEN-BY
 lines of an imported message

---
 src/crashmail/memmessage.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crashmail/memmessage.c b/src/crashmail/memmessage.c
index 8e16f63..55a73b8 100644
--- a/src/crashmail/memmessage.c
+++ b/src/crashmail/memmessage.c
@@ -484,7 +484,10 @@ char *mmMakeSeenByBuf(struct jbList *list)
    /* Allocate our memory block */
 
    if(!(text=osAlloc(size)))
+   {
+      nomem=TRUE;
       return(NULL);
+   }
 
    text[0]=0;
 
-- 
2.43.0


From 823ccfc605b7a1e06b492f8ef775cab52e72f05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:33 +0000
Subject: [PATCH 30/95] fix: do not add a file that no longer exists to a flow
 file

---
 src/crashmail/outbound.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index 15dbf7e..a8cee00 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -442,8 +442,17 @@ void HandleOrphan(char *name)
       return;
 	}
 
-   if(doAddFlow(buf,basename,type,mode))
+   if(!osExists(buf))
+   {
+      /* Was already in the flow file and has been sent */
+
+      LogWrite(1,SYSTEMINFO,"File \"%s\" no longer exists",buf);
+      osDelete(name);
+   }
+   else if(doAddFlow(buf,basename,type,mode))
+   {
    	osDelete(name); /* Orphan file no longer needed */
+   }
 
 	UnlockBasename(basename);
 }
-- 
2.43.0


From 9e4370840888ed59a394481195f2bf079df37262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:17 +0000
Subject: [PATCH 31/95] fix: do not store an echomail whose SEEN-BY list is
 incomplete for lack of memory

---
 src/crashmail/handle.c | 3 ++-
 src/crashmail/mb_jam.c | 8 ++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 17a98b2..10a92f9 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -661,7 +661,8 @@ bool HandleEchomail(struct MemMessage *mm)
    /* Add nodes specified in config to seen-by */
 
    for(tmpaddnode=(struct AddNode *)temparea->Aka->AddList.First;tmpaddnode;tmpaddnode=tmpaddnode->Next)
-      mmAddNodes2DList(&mm->SeenBy,tmpaddnode->Node.Net,tmpaddnode->Node.Node);
+      if(!mmAddNodes2DList(&mm->SeenBy,tmpaddnode->Node.Net,tmpaddnode->Node.Node))
+         return(FALSE);
 
    /* Add own node to seen-by */
 
diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 675e5c3..6405ded 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -664,9 +664,13 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
 
             c=d;
          }
-      }
 
-      osFree(buf);
+         osFree(buf);
+      }
+      else
+      {
+         jam_nomem=TRUE;
+      }
    }
 
    /* Path */
-- 
2.43.0


From d0c5faf29b4c33e7581bfeb9e5396919a8d3f267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:12 +0000
Subject: [PATCH 32/95] fix: a file moved by copying must not appear before it
 is complete

---
 src/crashmail/misc.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index 94d32d8..b98760b 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -412,11 +412,24 @@ bool copyfile(char *file,char *newfile)
 
 bool movefile(char *file,char *newfile)
 {
+   char tmpname[210];
+
    if(osRename(file,newfile))
       return(TRUE); /* rename was enough */
 
-   if(!copyfile(file,newfile))
+   /* newfile must not exist before it is complete */
+
+   mystrncpy(tmpname,newfile,200);
+   strcat(tmpname,".tmp");
+
+   if(!copyfile(file,tmpname))
       return(FALSE);
+
+   if(!osRename(tmpname,newfile))
+   {
+      osDelete(tmpname);
+      return(FALSE);
+   }
  
    osDelete(file);
    return(TRUE);    
-- 
2.43.0


From cda5640fa48c88a35cdc73cedb5a2df7d5820594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:16 +0000
Subject: [PATCH 33/95] fix: mark the receipt, not the answered message, as
 automatically generated

---
 src/crashmail/handle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 10a92f9..cf58de1 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -1025,7 +1025,7 @@ bool AnswerReceipt(struct MemMessage *mm)
 
    MakeFidoDate(time(NULL),tmpmm->DateTime);
 
-   mm->Flags |= MMFLAG_AUTOGEN;
+   tmpmm->Flags |= MMFLAG_AUTOGEN;
 
    MakeNetmailKludges(tmpmm);
 
-- 
2.43.0


From 1af84827dc4a9097bc490501ce1bf46efaf9d29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:16 +0000
Subject: [PATCH 34/95] fix: end the last line of rescanned messages before
 SEEN-BY lines are added

---
 src/crashmail/handle.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index cf58de1..ed3e387 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -1710,9 +1710,20 @@ bool HandleNetmail(struct MemMessage *mm)
 bool HandleRescan(struct MemMessage *mm)
 {
    struct Area *temparea;
+   struct TextChunk *chunk;
 
    rescan_total++;
 
+   /* Add CR if last line doesn't end with CR */
+
+   chunk=(struct TextChunk *)mm->TextChunks.Last;
+
+   if(chunk && chunk->Length!=0 && chunk->Data[chunk->Length-1] != 13)
+   {
+      if(!mmAddBuf(&mm->TextChunks,"\x0d",1))
+         return(FALSE);
+   }
+
    /* Find area */
 
    for(temparea=(struct Area *)config.AreaList.First;temparea;temparea=temparea->Next)
-- 
2.43.0


From 6faa539d634c57d58ead4f6756b2857de019800e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:56 +0000
Subject: [PATCH 35/95] fix: do not copy NUL characters of JAM message texts
 into packets

---
 src/crashmail/mb_jam.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 6405ded..9056e08 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -1062,7 +1062,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
          }
       }
 
-      if(!(mmAddBuf(&mm->TextChunks,msgtext,Header_S.TxtLen)))
+      if(!(mmAddBuf(&mm->TextChunks,msgtext,(uint32_t)strlen(msgtext)))) /* A packet cannot hold NUL characters */
       {
          JAM_DelSubPacket(SubPacket_PS);
          osFree(msgtext);
-- 
2.43.0


From 57e6a383088e4d913dec22897fa4a8f968e82391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:54 +0000
Subject: [PATCH 36/95] fix: do not export a JAM message that could not be read
 completely for lack of memory

---
 src/crashmail/mb_jam.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 9056e08..3799743 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -725,7 +725,10 @@ void jam_makekludge(struct MemMessage *mm,char *pre,char *data,uint32_t len)
    char *buf;
 
 	if(!(buf=osAlloc(strlen(pre)+len+10))) /* A few bytes extra */
+	{
+		nomem=TRUE;
 		return;
+	}
 
    strcpy(buf,pre);
    if(len && data) mystrncpy(&buf[strlen(buf)],data,len+1);
@@ -766,6 +769,11 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
       {
          return(TRUE); /* Message no longer exists */
       }
+      else if(res == JAM_NO_MEMORY)
+      {
+         nomem=TRUE;
+         return(FALSE);
+      }
       else
       {
          LogWrite(1,TOSSINGERR,"Failed to read message #%u in JAM messagebase \"%s\"",num,area->Path);
@@ -1078,6 +1086,13 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
 
    /* Message reading done */
 
+   if(nomem)
+   {
+      /* Part of the message is missing */
+      mmFree(mm);
+      return(FALSE);
+   }
+
    if(isrescanning) mm->Flags |= MMFLAG_RESCANNED;
    else             mm->Flags |= MMFLAG_EXPORTED;
 
-- 
2.43.0


From 82658c04c1016b3dfaf0ff13e9cf5b076132d2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:50 +0000
Subject: [PATCH 37/95] fix: a *.msg file that cannot be opened must not be
 skipped as if it did not exist

---
 src/crashmail/mb_msg.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/mb_msg.c b/src/crashmail/mb_msg.c
index 3e5c3f5..5814e9c 100644
--- a/src/crashmail/mb_msg.c
+++ b/src/crashmail/mb_msg.c
@@ -261,14 +261,23 @@ bool msg_ExportMSGNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
 
    if(!(fh=osOpen(buf,MODE_OLDFILE)))
    {
-      /* Message doesn't exist */
-      return(TRUE);
+      uint32_t err=osError();
+
+      mmFree(mm);
+
+      if(!osExists(buf))
+         return(TRUE); /* Message doesn't exist */
+
+      LogWrite(1,SYSTEMERR,"Failed to open \"%s\"",buf);
+      LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+      return(FALSE);
    }
 
    if(osRead(fh,&Msg,sizeof(struct StoredMsg))!=sizeof(struct StoredMsg))
    {
       LogWrite(1,TOSSINGERR,"Unexpected EOF while reading %s, message ignored",buf);
       osClose(fh);
+      mmFree(mm);
       return(TRUE);
    }
 
@@ -278,6 +287,7 @@ bool msg_ExportMSGNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
 		{
 			/* Don't touch if the message is sent or not local */
 			osClose(fh);
+			mmFree(mm);
    	   return(TRUE);
 		}
    }
-- 
2.43.0


From 3c67ba67ab99b77f6924e566b10597759936f7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:50 +0000
Subject: [PATCH 38/95] fix: ignore an incomplete JAM highwater file

---
 src/crashmail/mb_jam.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 3799743..fe5a7f5 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -197,7 +197,7 @@ void jam_gethighwater(struct jam_Area *ja)
 
    if((fh=osOpen(buf,MODE_OLDFILE)))
    {
-      if(osRead(fh,&num,sizeof(uint32_t)))
+      if(osRead(fh,&num,sizeof(uint32_t)) == sizeof(uint32_t))
       {
          ja->HighWater=num;
          ja->OldHighWater=num;
-- 
2.43.0


From 1353a60b26f5ae07175d5c9b01eeee88e2faf885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:16 +0000
Subject: [PATCH 39/95] fix: crashmaint applied KEEPNUM and KEEPDAYS of areas
 it skips to the previous area

---
 src/tools/crashmaint.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools/crashmaint.c b/src/tools/crashmaint.c
index c5ddf0d..102af40 100644
--- a/src/tools/crashmaint.c
+++ b/src/tools/crashmaint.c
@@ -892,6 +892,10 @@ bool ReadConfig(char *file)
 
       if(stricmp(cfgword,"AREA")==0 || stricmp(cfgword,"NETMAIL")==0 || stricmp(cfgword,"LOCALAREA")==0)
       {
+         /* The lines that follow no longer belong to the previous area */
+
+         LastArea=NULL;
+
          jbstrcpy(tag,cfgbuf,80,&jbcpos); 
          jbstrcpy(aka,cfgbuf,80,&jbcpos);
 
-- 
2.43.0


From e8cc9662847606909c24a3a5fc444e0aabd30d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:16 +0000
Subject: [PATCH 40/95] fix: crashmaint deleted messages with a date in the
 future as too old

---
 src/tools/crashmaint.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/crashmaint.c b/src/tools/crashmaint.c
index 102af40..7773bc2 100644
--- a/src/tools/crashmaint.c
+++ b/src/tools/crashmaint.c
@@ -317,7 +317,7 @@ bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
 
       for(msg=(struct Msg *)MsgList.First;msg && !ctrlc;msg=msg->Next)
       {
-         if(today - msg->Day > area->KeepDays && msg->Num!=0)
+         if(msg->Num!=0 && msg->Day < today && today - msg->Day > area->KeepDays)
          {
             sprintf(buf2,"%u.msg",msg->Num);
             MakeFullPath(area->Path,buf2,buf,200);
@@ -572,7 +572,7 @@ bool ProcessAreaJAM(struct Area *area,bool maint, bool pack, bool verbose)
 				if(day == 0)
 					day=Header_S.DateWritten / (24*60*60);
 
-			   if(today-day > area->KeepDays && !(Header_S.Attribute & MSG_DELETED))
+			   if(day < today && today-day > area->KeepDays && !(Header_S.Attribute & MSG_DELETED))
 				{
 					/* Not already deleted and too old*/
 
-- 
2.43.0


From c95307d1a5831c4fa142367fe00e675550afef68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:17 +0000
Subject: [PATCH 41/95] fix: crashmaint packed a JAM base with wrong message
 numbers when an empty entry could not be written

---
 src/tools/crashmaint.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/tools/crashmaint.c b/src/tools/crashmaint.c
index 7773bc2..8b26a75 100644
--- a/src/tools/crashmaint.c
+++ b/src/tools/crashmaint.c
@@ -644,7 +644,16 @@ bool ProcessAreaJAM(struct Area *area,bool maint, bool pack, bool verbose)
 				{
 					if(firstwritten) 
 					{
-						JAM_AddEmptyMessage(NewBase_PS);
+						if(JAM_AddEmptyMessage(NewBase_PS))
+						{
+				      	printf(" Failed to copy message %d (disk full?), cannot pack messagebase\n",num+basenum);
+							JAM_UnlockMB(Base_PS);
+							JAM_CloseMB(Base_PS);
+							JAM_UnlockMB(NewBase_PS);
+							JAM_CloseMB(NewBase_PS);
+							JAM_RemoveMB(NewBase_PS,buf);
+							return(TRUE);
+						}
 					}
 					else 
 					{
@@ -669,7 +678,16 @@ bool ProcessAreaJAM(struct Area *area,bool maint, bool pack, bool verbose)
 				{
 					if(firstwritten) 
 					{
-						JAM_AddEmptyMessage(NewBase_PS);
+						if(JAM_AddEmptyMessage(NewBase_PS))
+						{
+				      	printf(" Failed to copy message %d (disk full?), cannot pack messagebase\n",num+basenum);
+							JAM_UnlockMB(Base_PS);
+							JAM_CloseMB(Base_PS);
+							JAM_UnlockMB(NewBase_PS);
+							JAM_CloseMB(NewBase_PS);
+							JAM_RemoveMB(NewBase_PS,buf);
+							return(TRUE);
+						}
 					}
 					else
 					{
-- 
2.43.0


From 6bfc1baa7ace5496068771650acad340ee983a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:50 +0000
Subject: [PATCH 42/95] fix: crashmaint overwrote messages when a *.msg file
 could not be renumbered

---
 src/tools/crashmaint.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/tools/crashmaint.c b/src/tools/crashmaint.c
index 8b26a75..a381590 100644
--- a/src/tools/crashmaint.c
+++ b/src/tools/crashmaint.c
@@ -381,7 +381,15 @@ bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
             if(verbose)
                printf(" Renaming message %u to %u\n",msg->Num,msg->NewNum);
 
-            osRename(buf,newbuf);
+            if(!osRename(buf,newbuf))
+            {
+               /* Going on would overwrite the message that could not be moved */
+
+               uint32_t err=osError();
+               printf(" Error: Couldn't rename %s to %s\n",buf,newbuf);
+               printf(" Error: %s\n",osErrorMsg(err));
+               break;
+            }
          }
 
       if(ctrlc)
-- 
2.43.0


From 6115252cf817fb69a334c5f43ddea39f78acfb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:58 +0000
Subject: [PATCH 43/95] fix: crashmaint left the *.msg highwater mark beyond
 renumbered messages that had not been exported

---
 src/tools/crashmaint.c | 129 ++++++++++++++++++++++++++++++-----------
 1 file changed, 95 insertions(+), 34 deletions(-)

diff --git a/src/tools/crashmaint.c b/src/tools/crashmaint.c
index a381590..c0abcc7 100644
--- a/src/tools/crashmaint.c
+++ b/src/tools/crashmaint.c
@@ -204,16 +204,59 @@ void scanfunc(char *str)
    msg->Day=day;
 }
 
+bool WriteHighWater(struct Area *area,uint32_t highwater)
+{
+   struct StoredMsg StoredMsg;
+   char buf[200];
+   osFile fh;
+   bool success;
+
+   memset(&StoredMsg,0,sizeof(struct StoredMsg));
+
+   strcpy(StoredMsg.From,"CrashMail II");
+   strcpy(StoredMsg.To,"All");
+   strcpy(StoredMsg.Subject,"HighWater mark");
+   MakeFidoDate(time(NULL),StoredMsg.DateTime);
+
+   StoredMsg.ReplyTo=highwater;
+   StoredMsg.Attr=FLAG_SENT | FLAG_PVT;
+
+   MakeFullPath(area->Path,"1.msg",buf,200);
+
+   success=FALSE;
+
+   if((fh=osOpen(buf,MODE_NEWFILE)))
+   {
+      success=TRUE;
+
+      if(!osWrite(fh,&StoredMsg,sizeof(struct StoredMsg)))
+         success=FALSE;
+
+      if(!osWrite(fh,"",1))
+         success=FALSE;
+
+      osClose(fh);
+   }
+
+   if(!success)
+      printf(" Error: Couldn't write highwater mark to %s\n",buf);
+
+   return(success);
+}
+
 bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
 {
-   uint32_t today,num,del,highwater,oldhighwater;
+   uint32_t today,num,del,highwater,oldhighwater,currenthighwater;
    struct Msg *msg;
    char buf[200],newbuf[200],buf2[100];
    struct StoredMsg StoredMsg;
    osFile fh;
+   uint32_t newhighwater;
+   bool renumber;
 
    highwater=0;
    oldhighwater=0;
+   currenthighwater=0;
 
    jbNewList(&MsgList);
 
@@ -264,6 +307,7 @@ bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
       {
          highwater=StoredMsg.ReplyTo;
          oldhighwater=StoredMsg.ReplyTo;
+         currenthighwater=StoredMsg.ReplyTo;
       }
       osClose(fh);
    }
@@ -287,7 +331,18 @@ bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
          MakeFullPath(area->Path,buf2,buf,200);
 
          if(msg->Num == highwater)
+         {
+            /* Lowered first so that it is never beyond the messages */
+
+            if(!WriteHighWater(area,0))
+            {
+               jbFreeList(&MsgList);
+               return(TRUE);
+            }
+
             highwater=0;
+            currenthighwater=0;
+         }
 
          if(verbose)
             printf(" Deleting message #%u by number\n",msg->Num);
@@ -323,7 +378,18 @@ bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
             MakeFullPath(area->Path,buf2,buf,200);
 
             if(msg->Num == highwater)
+            {
+               /* Lowered first so that it is never beyond the messages */
+
+               if(!WriteHighWater(area,0))
+               {
+                  jbFreeList(&MsgList);
+                  return(TRUE);
+               }
+
                highwater=0;
+               currenthighwater=0;
+            }
 
             if(verbose)
                printf(" Deleting message #%u by date\n",msg->Num);
@@ -351,6 +417,8 @@ bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
    if(pack)
    {
       num=2;
+      renumber=FALSE;
+      newhighwater=0;
 
       msg=(struct Msg *)MsgList.First;
 
@@ -361,10 +429,31 @@ bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
 
          if(msg)
          {
+            /* The mark moves with the last message that it covers */
+
+            if(oldhighwater!=0 && msg->Num <= oldhighwater)
+               newhighwater=num;
+
+            if(msg->Num!=num)
+               renumber=TRUE;
+
             msg->NewNum=num++;
             msg=msg->Next;
          }
       }
+
+      if(highwater!=0 && renumber)
+      {
+         /* Not valid while messages are being moved */
+
+         if(!WriteHighWater(area,0))
+         {
+            jbFreeList(&MsgList);
+            return(TRUE);
+         }
+
+         currenthighwater=0;
+      }
  
       for(msg=(struct Msg *)MsgList.First;msg && !ctrlc;msg=msg->Next)
          if(msg->Num!=0 && msg->Num!=msg->NewNum)
@@ -375,9 +464,6 @@ bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
             sprintf(buf2,"%u.msg",msg->NewNum);
 				MakeFullPath(area->Path,buf2,newbuf,200);
 
-            if(highwater == msg->Num)
-               highwater=msg->NewNum;
-
             if(verbose)
                printf(" Renaming message %u to %u\n",msg->Num,msg->NewNum);
 
@@ -388,6 +474,7 @@ bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
                uint32_t err=osError();
                printf(" Error: Couldn't rename %s to %s\n",buf,newbuf);
                printf(" Error: %s\n",osErrorMsg(err));
+               newhighwater=0;
                break;
             }
          }
@@ -398,41 +485,15 @@ bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
          return(TRUE);
       }
 
+      highwater=newhighwater;
+
       printf(" Area renumbered\n");
    }
 
    jbFreeList(&MsgList);
 
-   if(highwater!=oldhighwater)
-   {
-      strcpy(StoredMsg.From,"CrashMail II");
-      strcpy(StoredMsg.To,"All");
-      strcpy(StoredMsg.Subject,"HighWater mark");
-      MakeFidoDate(time(NULL),StoredMsg.DateTime);
-
-      StoredMsg.TimesRead=0;
-      StoredMsg.DestNode=0;
-      StoredMsg.OrigNode=0;
-      StoredMsg.Cost=0;
-      StoredMsg.OrigNet=0;
-      StoredMsg.DestNet=0;
-      StoredMsg.DestZone=0;
-      StoredMsg.OrigZone=0;
-      StoredMsg.OrigPoint=0;
-      StoredMsg.DestPoint=0;
-      StoredMsg.ReplyTo=highwater;
-      StoredMsg.Attr=FLAG_SENT | FLAG_PVT;
-      StoredMsg.NextReply=0;
-
-      MakeFullPath(area->Path,"1.msg",buf,200);
-
-      if((fh=osOpen(buf,MODE_NEWFILE)))
-      {
-         osWrite(fh,&StoredMsg,sizeof(struct StoredMsg));
-         osWrite(fh,"",1);
-         osClose(fh);
-      }
-   }
+   if(highwater!=currenthighwater)
+      WriteHighWater(area,highwater);
 
    return(TRUE);
 }
-- 
2.43.0


From 6363200960a84742e5e1de3b760f5af0509df6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:44 +0000
Subject: [PATCH 44/95] fix: JAM CRC values were calculated with negative table
 indexes

---
 src/jamlib/crc32.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jamlib/crc32.c b/src/jamlib/crc32.c
index 42b37de..be75dee 100644
--- a/src/jamlib/crc32.c
+++ b/src/jamlib/crc32.c
@@ -72,7 +72,7 @@ uint32_t JAM_Crc32(char *Buffer_PC, uint32_t Length_I)
    Crc_I=0xffffffff;
 
    for(c=0;c < Length_I; c++)
-      Crc_I=(Crc_I>>8) ^ crc32tab[(char)Crc_I ^ tolower(Buffer_PC[c])];
+      Crc_I=(Crc_I>>8) ^ crc32tab[(uint8_t)(Crc_I ^ tolower((uint8_t)Buffer_PC[c]))];
 
    return(Crc_I);
 }
-- 
2.43.0


From eeb89aeec8409bfda54c681bf5fb7a4ce5a819b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:17 +0000
Subject: [PATCH 45/95] fix: crashmaint overwrote a *.msg message that it had
 failed to list

---
 src/tools/crashmaint.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tools/crashmaint.c b/src/tools/crashmaint.c
index c0abcc7..430da2d 100644
--- a/src/tools/crashmaint.c
+++ b/src/tools/crashmaint.c
@@ -185,7 +185,14 @@ void scanfunc(char *str)
    MakeFullPath(scanfuncarea,str,buf,200);
 
    if(!(fe=osGetFileEntry(buf)))
+   {
+      /* A message that is left out would be overwritten when renumbering */
+
+      if(osExists(buf))
+         nomem=TRUE;
+
       return;
+   }
 
    num=atol(str);   
    day=fe->Date / (24*60*60);
-- 
2.43.0


From 16c0cd954e83c5329f5a1dd7de0a32b9b80c3284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:03 +0000
Subject: [PATCH 46/95] fix: crashmaint renumbered a *.msg area whose highwater
 mark it could not read

---
 src/tools/crashmaint.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tools/crashmaint.c b/src/tools/crashmaint.c
index 430da2d..c57c61e 100644
--- a/src/tools/crashmaint.c
+++ b/src/tools/crashmaint.c
@@ -318,6 +318,14 @@ bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
       }
       osClose(fh);
    }
+   else if(osExists(buf))
+   {
+      uint32_t err=osError();
+      printf(" Error: Couldn't open %s\n",buf);
+      printf(" Error: %s\n",osErrorMsg(err));
+      jbFreeList(&MsgList);
+      return(TRUE);
+   }
 
    if(maint && area->KeepNum!=0)
    {
-- 
2.43.0


From 0194dc5f7c179969026da801f9e760c78012e59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:59 +0000
Subject: [PATCH 47/95] fix: every tossed netmail was counted twice in the
 statistics of the system it came from

---
 src/crashmail/handle.c | 25 ++-----------------------
 1 file changed, 2 insertions(+), 23 deletions(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index ed3e387..b0f48a7 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -1132,42 +1132,21 @@ bool HandleNetmail(struct MemMessage *mm)
 {
    struct Area       *tmparea;
    struct Aka        *aka;
-   struct ConfigNode *cnode,*pktcnode;
+   struct ConfigNode *cnode;
    struct ImportNode *inode;
    struct Route      *tmproute;
 	struct Node4D     n4d,Dest4D;
    struct PatternNode *patternnode;
    struct AreaFixName *areafixname;
-   struct TextChunk *tmpchunk,*chunk;
+   struct TextChunk *chunk;
    bool istext;
    char buf[400],buf2[200],buf3[200],subjtemp[80];
    uint32_t c,d,jbcpos;
    time_t t;
    struct tm *tp;
-   uint32_t size;
 	uint8_t oldtype;
    bool headeronly;
 
-   /* Find orignode */
-
-   for(pktcnode=(struct ConfigNode *)config.CNodeList.First;pktcnode;pktcnode=pktcnode->Next)
-      if(Compare4D(&mm->PktOrig,&pktcnode->Node)==0) break;
-
-   /* Calculate size */
-
-   size=0;
-
-   for(tmpchunk=(struct TextChunk *)mm->TextChunks.First;tmpchunk;tmpchunk=tmpchunk->Next)
-      size+=tmpchunk->Length;
-
-   /* Statistics */
-
-   if((mm->Flags & MMFLAG_TOSSED) && pktcnode)
-   {
-      pktcnode->GotNetmails++;
-      pktcnode->GotNetmailBytes+=size;
-   }
-
    /* Set zones if they are zero */
 
    if(mm->DestNode.Zone == 0)
-- 
2.43.0


From 0bb7e11cd26492ca9d2234ea172e662f408de3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:00 +0000
Subject: [PATCH 48/95] fix: crashstats showed every number of bytes as
 megabytes

---
 src/tools/crashstats.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools/crashstats.c b/src/tools/crashstats.c
index a41f807..d1cc784 100644
--- a/src/tools/crashstats.c
+++ b/src/tools/crashstats.c
@@ -274,9 +274,9 @@ bool SortNodes(struct jbList *list)
 char *unit(uint32_t i)
 {
    static char buf[40];
-   if ((i>10000000)||(i<-10000000)) sprintf(buf,"%d MB",i/(1024*1024));
-   else if ((i>10000)||(i<-10000)) sprintf(buf,"%d KB",i/1024);
-   else sprintf(buf,"%d bytes",i);
+   if (i>10000000) sprintf(buf,"%u MB",i/(1024*1024));
+   else if (i>10000) sprintf(buf,"%u KB",i/1024);
+   else sprintf(buf,"%u bytes",i);
    return buf;
 }
 
-- 
2.43.0


From 3698f0fb1a363e9d0b79fffb7294e7234ff989e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:08 +0000
Subject: [PATCH 49/95] fix: the name of the last bundle overwrote the number
 of received netmails

---
 src/crashmail/config.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/config.h b/src/crashmail/config.h
index 762d2bb..b20ea8b 100644
--- a/src/crashmail/config.h
+++ b/src/crashmail/config.h
@@ -175,7 +175,7 @@ struct ConfigNode
 
    struct jbList RemoteAFList;
 
-   char LastArcName[12];
+   char LastArcName[13];
 	
    /* Stats */
 
-- 
2.43.0


From 56791f2716360b41f445294d646fc11cbaf12098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:29 +0000
Subject: [PATCH 50/95] fix: AreaFix: room for the longest area name in the
 notice about a removed area

---
 src/crashmail/areafix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index 3b55e3a..ed7c02e 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -732,7 +732,7 @@ bool AreaFix(struct MemMessage *mm)
 void SendRemoveMessages(struct Area *area)
 {
    struct TossNode *tn;
-   char buf[100];
+   char buf[200];
    struct MemMessage *mm;
 	
    for(tn=(struct TossNode *)area->TossNodes.First;tn;tn=tn->Next)
-- 
2.43.0


From b2edb5c1274d0309593c60786ff76b705623b72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:29 +0000
Subject: [PATCH 51/95] fix: AreaFix: read request lines of 100 characters and
 more without overrunning the buffer

---
 src/crashmail/areafix.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index ed7c02e..b5a04a4 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -120,11 +120,10 @@ bool AreaFix(struct MemMessage *mm)
    {
       for(c=0;c<chunk->Length && !stop && !ctrlc;c++)
       {
-         for(d=0;d<100 && chunk->Data[c+d]!=13 && chunk->Data[c+d]!=10 && c+d<chunk->Length;d++)
-            buf[d]=chunk->Data[c+d];
+         for(d=0;c<chunk->Length && chunk->Data[c]!=13 && chunk->Data[c]!=10;c++)
+            if(d<99) buf[d++]=chunk->Data[c];
 
          buf[d]=0;
-         c+=d;
 
          if(strncmp(buf,"---",3)==0)
             stop=TRUE;
-- 
2.43.0


From 103b92b8ec6ba5d2463f02ad875c716380603b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:58 +0000
Subject: [PATCH 52/95] fix: AreaFix: strip the command character without
 copying between overlapping strings

---
 src/crashmail/areafix.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index b5a04a4..5fb93af 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -325,19 +325,19 @@ bool AreaFix(struct MemMessage *mm)
             if(areaname[0]=='-')
             {
                command=COMMAND_REMOVE;
-               strcpy(areaname,&areaname[1]);
+               memmove(areaname,&areaname[1],strlen(areaname));
             }
             else if(areaname[0]=='=')
             {
                command=COMMAND_UPDATE;
-               strcpy(areaname,&areaname[1]);
+               memmove(areaname,&areaname[1],strlen(areaname));
             }
             else
             {
                command=COMMAND_ADD;
 
                if(areaname[0]=='+')
-                  strcpy(areaname,&areaname[1]);
+                  memmove(areaname,&areaname[1],strlen(areaname));
             }
 
             if(!osCheckPattern(areaname))
-- 
2.43.0


From 6c4af016818f3440ffd4b2c04103729075d01bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:33 +0000
Subject: [PATCH 53/95] fix: AreaFix: name the %RESUME command correctly in the
 answer to %PAUSE

---
 src/crashmail/areafix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index 5fb93af..3d15030 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -148,7 +148,7 @@ bool AreaFix(struct MemMessage *mm)
                   config.changed=TRUE;
                   done=TRUE;
 						AddCommandReply(afr,buf,"Your system is marked as passive");
-						AddCommandReply(afr,"","Send %%RESUME to get echomail again");
+						AddCommandReply(afr,"","Send %RESUME to get echomail again");
                }
             }
             else if(stricmp(buf2,"%RESUME")==0)
-- 
2.43.0


From 1458c591600391b64af95eb847f87efeb8f19c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:03 +0000
Subject: [PATCH 54/95] fix: give every automatically added area a path of its
 own

---
 src/crashmail/handle.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index b0f48a7..79ec07e 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -144,6 +144,17 @@ void MakeDirectory(char *dest,uint32_t destsize,char *defdir,char *areaname)
    dest[d]=0;
 }
 
+static bool PathInUse(struct Area *newarea)
+{
+   struct Area *area;
+
+   for(area=(struct Area *)config.AreaList.First;area;area=area->Next)
+      if(area != newarea && area->AreaType != AREATYPE_DEFAULT && stricmp(area->Path,newarea->Path)==0)
+         return(TRUE);
+
+   return(FALSE);
+}
+
 struct Area *AddArea(char *name,struct Node4D *node,struct Node4D *mynode,uint32_t active,uint32_t forcepassthru)
 {
    struct Area *temparea,*defarea;
@@ -215,7 +226,13 @@ struct Area *AddArea(char *name,struct Node4D *node,struct Node4D *mynode,uint32
          MakeDirectory checks for duplicate area names in the AreaList
          and would get confused */
       MakeDirectory(buf2,80,defarea->Path,buf);
-      strcpy(temparea->Path,buf2);
+      mystrncpy(temparea->Path,buf2,80);
+
+      /* Different area names can give the same path. No other area may have it,
+         as the configuration would not be accepted the next time */
+
+      for(c=1;c<10000 && PathInUse(temparea);c++)
+         sprintf(temparea->Path,"%.74s_%u",buf2,c);
 
       if(!forcepassthru)
          temparea->Messagebase=defarea->Messagebase;
-- 
2.43.0


From b8a9d73e97bf56a9a7f014c195155ee981878150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:03 +0000
Subject: [PATCH 55/95] fix: AreaFix: check that the requested area could be
 added before using it

---
 src/crashmail/areafix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index 3d15030..0191054 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -627,12 +627,12 @@ bool AreaFix(struct MemMessage *mm)
                                     RemoteAreafixAdd(areaname,arealist->Node);
 
                                     area=AddArea(areaname,&arealist->Node->Node,&tmproute->Aka->Node,TRUE,config.cfg_Flags & CFG_FORWARDPASSTHRU);
-                                    area->Group=arealist->Group;
 
                                     if(area)
                                     {
                                        uint16_t flags;
 
+                                       area->Group=arealist->Group;
                                        flags=0;
 
                                        if(CheckFlags(area->Group,cnode->ReadOnlyGroups))
-- 
2.43.0


From 39dbc3bc59f4554c1b45e4ec029571107b7aa063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:34 +0000
Subject: [PATCH 56/95] fix: AreaFix: don't crash when there is no route to the
 system an area is requested from

---
 src/crashmail/areafix.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index 0191054..08eb295 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -1567,6 +1567,15 @@ void SendRemoteAreafix(void)
          for(tmproute=(struct Route *)config.RouteList.First;tmproute;tmproute=tmproute->Next)
             if(Compare4DPat(&tmproute->Pattern,&node->Node)==0) break;
 
+         if(!tmproute)
+         {
+            Print4D(&node->Node,buf);
+            LogWrite(1,TOSSINGERR,"No route found for %s",buf);
+            mmFree(mm);
+            jbFreeList(&node->RemoteAFList);
+            continue;
+         }
+
          Copy4D(&mm->DestNode,&node->Node);
          Copy4D(&mm->OrigNode,&tmproute->Aka->Node);
 
-- 
2.43.0


From 27706d4a91af31dd34dfff41ca3db710b497c625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:04 +0000
Subject: [PATCH 57/95] fix: keep a removed area in memory while its open
 messagebase refers to it

---
 src/crashmail/areafix.c |  8 +++++++-
 src/shared/jblist.c     | 10 +++++++---
 src/shared/jblist.h     |  1 +
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index 08eb295..38df743 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -824,6 +824,11 @@ void SendRemoveMessages(struct Area *area)
    }
 }
 
+/* Removed areas are kept until the program ends, as messages may have been
+   written to them and their messagebases may still be open */
+
+static struct jbList RemovedAreas;
+
 void RemoveDeletedAreas(void)
 {
 	struct Area *area,*temparea;
@@ -837,7 +842,8 @@ void RemoveDeletedAreas(void)
 	   if(area->AreaType == AREATYPE_DELETED)
 		{
          jbFreeList(&area->TossNodes);
-			jbFreeNode(&config.AreaList,(struct jbNode *)area);
+			jbRemNode(&config.AreaList,(struct jbNode *)area);
+			jbAddNode(&RemovedAreas,(struct jbNode *)area);
 			config.changed=TRUE;
       }
 
diff --git a/src/shared/jblist.c b/src/shared/jblist.c
index c1ad164..f160b77 100644
--- a/src/shared/jblist.c
+++ b/src/shared/jblist.c
@@ -68,7 +68,7 @@ void jbFreeNum(struct jbList *list,uint32_t num)
    }
 }
 
-void jbFreeNode(struct jbList *list,struct jbNode *node)
+void jbRemNode(struct jbList *list,struct jbNode *node)
 {
    struct jbNode *old=NULL,*tmp;
 
@@ -90,7 +90,11 @@ void jbFreeNode(struct jbList *list,struct jbNode *node)
 
       if(tmp->Next == NULL)
          list->Last=old;
-
-      osFree(tmp);
    }
 }
+
+void jbFreeNode(struct jbList *list,struct jbNode *node)
+{
+   jbRemNode(list,node);
+   osFree(node);
+}
diff --git a/src/shared/jblist.h b/src/shared/jblist.h
index b36c292..3d14d90 100644
--- a/src/shared/jblist.h
+++ b/src/shared/jblist.h
@@ -16,6 +16,7 @@ void jbAddNode(struct jbList *list, struct jbNode *node);
 void jbNewList(struct jbList *list);
 void jbFreeList(struct jbList *list);
 void jbFreeNum(struct jbList *list,uint32_t num);
+void jbRemNode(struct jbList *list,struct jbNode *node);
 void jbFreeNode(struct jbList *list,struct jbNode *node);
 
 #endif
-- 
2.43.0


From fec1a1198761b75b6fe87d9ba2b85683f85e7169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:39 +0000
Subject: [PATCH 58/95] fix: AreaFix: keep the request when the answer could
 not be written

---
 src/crashmail/areafix.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index 38df743..170c3f2 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -34,6 +34,18 @@ void RemoveDeletedAreas(void);
 #define COMMAND_ADD        2
 #define COMMAND_REMOVE     3
 
+/* Handles a message that was created here. If that fails, the request that caused
+   it must be kept and tried again */
+
+static void afHandleMessage(struct MemMessage *mm)
+{
+   if(!HandleMessage(mm) && !nomem && !ioerror)
+   {
+      ioerror=TRUE;
+      ioerrornum=osError();
+   }
+}
+
 bool AreaFix(struct MemMessage *mm)
 {
    struct Arealist *arealist;
@@ -774,7 +786,7 @@ void SendRemoveMessages(struct Area *area)
          sprintf(buf,"---\x0dGenerated by CrashMail "VERSION"\x0d");
 			mmAddLine(mm,buf);
 
-         HandleMessage(mm);
+         afHandleMessage(mm);
 			
 			mmFree(mm);
       }
@@ -817,7 +829,7 @@ void SendRemoveMessages(struct Area *area)
             mmAddLine(mm,buf);
          }
 
-         HandleMessage(mm);
+         afHandleMessage(mm);
 
          mmFree(mm);
       }
@@ -1513,7 +1525,7 @@ void afSendMessage(struct afReply *afr)
 	else					
 		strcpy(afr->mm->Subject,afr->subject);
 		
-   HandleMessage(afr->mm);
+   afHandleMessage(afr->mm);
 }
 
 
@@ -1608,7 +1620,7 @@ void SendRemoteAreafix(void)
 
          mmAddLine(mm,"---\x0dGenerated by CrashMail "VERSION"\x0d");
 
-         HandleMessage(mm);
+         afHandleMessage(mm);
 
          mmFree(mm);
 
-- 
2.43.0


From e4cd8a3b9710da6d2e320aa2b18f733548f0e86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:29 +0000
Subject: [PATCH 59/95] fix: AreaFix: a requested area name must fit in the
 area

---
 src/crashmail/areafix.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index 170c3f2..1eb4ae1 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -352,6 +352,9 @@ bool AreaFix(struct MemMessage *mm)
                   memmove(areaname,&areaname[1],strlen(areaname));
             }
 
+            if(strlen(areaname) > 79)
+               areaname[79]=0; /* Longer than any area name can be */
+
             if(!osCheckPattern(areaname))
             {
                afAddLine(afr,"%-30.30s Invalid pattern",buf);
-- 
2.43.0


From 3668d40ee05e0a7a2ec600b8aec672b6ba203788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:34 +0000
Subject: [PATCH 60/95] fix: don't use an orphan file that was not completely
 written

---
 src/crashmail/outbound.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index a8cee00..5669640 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -391,6 +391,12 @@ void HandleOrphan(char *name)
 
    osClose(fh);
 
+   if(!strchr(buf,'\n'))
+   {
+      LogWrite(1,SYSTEMERR,"Orphan file \"%s\" is incomplete",name);
+      return;
+   }
+
    jbcpos=0;
 
    jbstrcpy(buf2,buf,100,&jbcpos);
-- 
2.43.0


From 3382c98f8276adbc767c89822c1dc8e7f5437168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:59 +0000
Subject: [PATCH 61/95] fix: NOT before parentheses applied only to the first
 part of the expression

NOT (A or B) was evaluated as (NOT A) or B.
---
 src/shared/expr.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/shared/expr.c b/src/shared/expr.c
index d010367..ef73461 100644
--- a/src/shared/expr.c
+++ b/src/shared/expr.c
@@ -71,11 +71,16 @@ struct expr *expr_get(struct expr *expr,int *errpos,char **errstr)
          res->offset=expr->offset+start;
          res->buf[0]=0;
 
+         /* The parentheses have to be kept after NOT since it applies to all of the expression */
+
          if(hasnot)
-            strcat(res->buf,"NOT ");
+            strcat(res->buf,"NOT (");
 
          strncat(res->buf,&expr->buf[start],len);
 
+         if(hasnot)
+            strcat(res->buf,")");
+
          expr->parsepos=d;
 
          return(res);
-- 
2.43.0


From 44c8911ea6fcb2a1c3a70be54949f9cb1743dd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:59 +0000
Subject: [PATCH 62/95] fix: overlapping strcpy() when evaluating NOT in filter
 expressions

---
 src/shared/expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/expr.c b/src/shared/expr.c
index ef73461..c5f0371 100644
--- a/src/shared/expr.c
+++ b/src/shared/expr.c
@@ -263,7 +263,7 @@ int expr_eval(struct expr *expr,int (*eval)(char *str,int *errpos,char **errstr)
          {
             int res;
 
-            strcpy(e1->buf,&e1->buf[4]);
+            memmove(e1->buf,&e1->buf[4],strlen(&e1->buf[4])+1);
             e1->parsepos=0;
 
             res=expr_eval(e1,eval,errpos,errstr);
-- 
2.43.0


From a080b4e94dc1821ff368a7b151d1c4e434070bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:59 +0000
Subject: [PATCH 63/95] fix: substring searches in filters missed matches

After a mismatch that was not at the last character of the pattern, the
search moved too far. Characters above 127 indexed the table with a
negative number.
---
 src/crashmail/filter.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index 91b49cb..645bf3e 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -14,7 +14,7 @@ void bminit(char *pat)
       bmstep[i]=0;
 
    for(i=0;i<len;i++)
-      bmstep[tolower(pat[i])]=len-i-1;
+      bmstep[tolower((unsigned char)pat[i])]=len-i-1;
 
    for(i=0;i<256;i++)
       if(bmstep[i] == 0) bmstep[i]=len;
@@ -22,7 +22,7 @@ void bminit(char *pat)
 
 long bmfind(char *pat,char *text,long textlen,long start)
 {
-   long i,j,end,len;
+   long i,j,end,len,step;
 
    len=strlen(pat);
    end=textlen-len;
@@ -37,7 +37,10 @@ long bmfind(char *pat,char *text,long textlen,long start)
       if(j == -1)
          return(i);
 
-      i+=bmstep[tolower(text[i+j])];
+      /* bmstep is counted from the end of the pattern */
+
+      step=bmstep[tolower((unsigned char)text[i+j])]-(len-1-j);
+      i+=step > 0 ? step : 1;
    }
 
    return(-1);
-- 
2.43.0


From 5595931387a76b7be2cfb6f9ca0c9de4e72876e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:59 +0000
Subject: [PATCH 64/95] fix: REMAPMSG did not end the line with the original
 destination

---
 src/crashmail/filter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index 645bf3e..741f9dd 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -818,7 +818,7 @@ bool Filter_Remap(struct MemMessage *mm,char *namepat,struct Node4DPat *destpat)
 
 	mmAddLine(mm,buf);
 
-   sprintf(buf,"\x01Message originally to %s at %u:%u/%u.%ud",
+   sprintf(buf,"\x01Message originally to %s at %u:%u/%u.%u\x0d",
       oldto,
       olddest4d.Zone,
       olddest4d.Net,
-- 
2.43.0


From cba38f7c19af1b0e36cb3024c3333e885f264456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:26 +0000
Subject: [PATCH 65/95] fix: MASQUERADE lost the end of line after a long MSGID
 or REPLY

---
 src/crashmail/filter.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index 741f9dd..e994f2a 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -866,11 +866,11 @@ bool Filter_Masquerade(struct MemMessage *mm,char *namepat,struct Node4DPat *des
 	char * separator = strchr (mm->MSGID, ' ');
 	if (separator)
 	{
-		char str[80];
-		strncpy (str, separator + 1, 80);
+		char str[100];
+		mystrncpy (str, separator + 1, 80);
 		snprintf (mm->MSGID, 80, "%u:%u/%u.%u %s", neworig4d.Zone, neworig4d.Net, neworig4d.Node, neworig4d.Point, str);
 		// update kludge
-		snprintf(str, 80, "\x01MSGID: %s\x0d",mm->MSGID);
+		snprintf(str, 100, "\x01MSGID: %s\x0d",mm->MSGID);
      	mmAddBuf(&mm->TextChunks, str, strlen(str));
 	}	
 
@@ -880,11 +880,11 @@ bool Filter_Masquerade(struct MemMessage *mm,char *namepat,struct Node4DPat *des
 		separator = strchr (mm->REPLY, ' ');
 		if (separator)
 		{
-			char str[80];
-			strncpy (str, separator + 1, 80);
+			char str[100];
+			mystrncpy (str, separator + 1, 80);
 			snprintf (mm->REPLY, 80, "%u:%u/%u.%u %s", neworig4d.Zone, neworig4d.Net, neworig4d.Node, neworig4d.Point, str);
 			// update kludge
-			snprintf(str, 80, "\x01REPLY: %s\x0d",mm->REPLY);
+			snprintf(str, 100, "\x01REPLY: %s\x0d",mm->REPLY);
 		 	mmAddBuf(&mm->TextChunks, str, strlen(str));
 		}	
 	}
-- 
2.43.0


From 210709931e98252c832db821963ecfb73e2afb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:26 +0000
Subject: [PATCH 66/95] fix: MASQUERADE added a PATH line to netmails

---
 src/crashmail/filter.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index e994f2a..57f9eae 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -968,10 +968,13 @@ bool Filter_Masquerade(struct MemMessage *mm,char *namepat,struct Node4DPat *des
 	jbNewList(&mm->Path); 
 	jbFreeList(&oldlist);
 
-	// new seenby and path
-	mmAddNodes2DList(&mm->SeenBy, neworig4d.Net, neworig4d.Node);
-	neworig4d.Point = 0; // don't add point to path
-	AddNodePath(&mm->Path, &neworig4d); 
+	// new seenby and path, netmails have none
+	if (mm->Area[0])
+	{
+		mmAddNodes2DList(&mm->SeenBy, neworig4d.Net, neworig4d.Node);
+		neworig4d.Point = 0; // don't add point to path
+		AddNodePath(&mm->Path, &neworig4d); 
+	}
 
 	return TRUE;
 }
-- 
2.43.0


From 4bffd3788db2cd6192f4710c864eee2a925f20e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:10 +0000
Subject: [PATCH 67/95] fix: substring searches skipped matches when the last
 character is repeated in the pattern

---
 src/crashmail/filter.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index 57f9eae..5ba9aea 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -11,13 +11,10 @@ void bminit(char *pat)
    len=strlen(pat);
 
    for(i=0;i<256;i++)
-      bmstep[i]=0;
+      bmstep[i]=len;
 
-   for(i=0;i<len;i++)
+   for(i=0;i<len-1;i++)
       bmstep[tolower((unsigned char)pat[i])]=len-i-1;
-
-   for(i=0;i<256;i++)
-      if(bmstep[i] == 0) bmstep[i]=len;
 }
 
 long bmfind(char *pat,char *text,long textlen,long start)
-- 
2.43.0


From 4c07379b54914ef935300fc2bf6b9b1160c018e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:03 +0000
Subject: [PATCH 68/95] fix: the rest of a long kludge line was written in the
 text of RFC messages

---
 src/crashmail/misc.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index b98760b..112f073 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -805,6 +805,15 @@ bool WriteRFC(struct MemMessage *mm,char *name,bool rfcaddr)
 
          while(tmp->Data[d+c]==10) d++;
 
+         /* Kludges have been written in the header, skip the whole line */
+
+         if(d<tmp->Length && tmp->Data[d]==1)
+         {
+            while(d<tmp->Length && tmp->Data[d]!=13) d++;
+            d++;
+            continue;
+         }
+
          while(c<78 && d+c<tmp->Length && tmp->Data[d+c]!=13)
          {
             if(tmp->Data[d+c]==32) lastspace=c;
-- 
2.43.0


From b1d4e6ec0a3e60c7faeaec823f2efa4ee3a38aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:42 +0000
Subject: [PATCH 69/95] fix: packets were packed in the wrong order if the
 clock had been set back

---
 src/crashmail/misc.c     | 34 ++++++++++++++++++++++++++++++++--
 src/crashmail/misc.h     |  1 +
 src/crashmail/outbound.c |  4 ++--
 3 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index 112f073..d76fd09 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -142,7 +142,24 @@ int DateCompareFE(const void *f1, const void *f2)
 		order */
 }
 
-bool SortFEList(struct jbList *list)
+int NumCompareFE(const void *f1, const void *f2)
+{
+   int32_t diff;
+
+   /* The numbers start again from zero after ffffffff */
+
+   diff=(int32_t)((uint32_t)hextodec((*(struct osFileEntry **)f1)->Name)-(uint32_t)hextodec((*(struct osFileEntry **)f2)->Name));
+
+   if(diff > 0)
+      return(1);
+
+   if(diff < 0)
+      return(-1);
+
+   return stricmp((*(struct osFileEntry **)f1)->Name,(*(struct osFileEntry **)f2)->Name);
+}
+
+static bool SortFEListFunc(struct jbList *list,int (*compare)(const void *,const void *))
 {
    struct osFileEntry *ftt,**buf,**work;
    uint32_t nodecount = 0;
@@ -164,7 +181,7 @@ bool SortFEList(struct jbList *list)
    for(ftt=(struct osFileEntry *)list->First;ftt;ftt=ftt->Next)
       *work++=ftt;
 
-   qsort(buf,(size_t)nodecount,(size_t)sizeof(struct osFileEntry *),DateCompareFE);
+   qsort(buf,(size_t)nodecount,(size_t)sizeof(struct osFileEntry *),compare);
 
    jbNewList(list);
 
@@ -176,6 +193,19 @@ bool SortFEList(struct jbList *list)
 	return(TRUE);
 }
 
+bool SortFEList(struct jbList *list)
+{
+   return SortFEListFunc(list,DateCompareFE);
+}
+
+/* Packets made by CrashMail are numbered in the order they were made. The
+   dates are not reliable if the clock has been set back */
+
+bool SortPktList(struct jbList *list)
+{
+   return SortFEListFunc(list,NumCompareFE);
+}
+
 bool IsArc(char *file)
 {
    int c;
diff --git a/src/crashmail/misc.h b/src/crashmail/misc.h
index 3c392f9..9ee4362 100644
--- a/src/crashmail/misc.h
+++ b/src/crashmail/misc.h
@@ -1,6 +1,7 @@
 void ExpandPacker(char *cmd,char *dest,uint32_t destsize,char *archive,char *file);
 
 bool SortFEList(struct jbList *list);
+bool SortPktList(struct jbList *list);
 bool BadFile(char *filename,char *comment);
 
 bool IsArc(char *file);
diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index 5669640..d368deb 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -1061,7 +1061,7 @@ bool ArchiveOutbound(void)
       return(FALSE);
    }
 
-   SortFEList(&PktList);
+   SortPktList(&PktList);
 
    for(fe=(struct osFileEntry *)PktList.First;fe;fe=fe->Next)
    {
@@ -1086,7 +1086,7 @@ bool ArchiveOutbound(void)
       return(FALSE);
    }
 
-   SortFEList(&PktList);
+   SortPktList(&PktList);
 
    for(fe=(struct osFileEntry *)PktList.First;fe;fe=fe->Next)
    {
-- 
2.43.0


From bdfcaf5c3236bec8dd24c457db2a198ed8fa8c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:42 +0000
Subject: [PATCH 70/95] fix: newer packets got ahead of older ones if a busy
 node was released while packing

---
 src/crashmail/outbound.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index d368deb..a772038 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -4,10 +4,27 @@ struct jbList ArcList;
 
 bool doAddFlow(char *filename,char *basename,char type,long mode);
 
+/* Nodes that were busy. They are left alone until the next attempt to pack
+   everything, otherwise newer mail could get ahead of older if a node is
+   released meanwhile */
+
+struct BusyNode
+{
+	struct BusyNode *Next;
+	char BaseName[200];
+};
+
+static struct jbList BusyList;
+
 bool LockBasename(char *basename)
 {
 	char buf[200];
 	osFile fp;
+	struct BusyNode *busy;
+
+	for(busy=(struct BusyNode *)BusyList.First;busy;busy=busy->Next)
+		if(strcmp(busy->BaseName,basename)==0)
+			return(FALSE);
 
 	strcpy(buf,basename);
 	strcat(buf,".bsy");
@@ -16,6 +33,12 @@ bool LockBasename(char *basename)
 	{
 		uint32_t err=osError();
 
+		if((busy=(struct BusyNode *)osAlloc(sizeof(struct BusyNode))))
+		{
+			mystrncpy(busy->BaseName,basename,200);
+			jbAddNode(&BusyList,(struct jbNode *)busy);
+		}
+
 		if(osExists(buf))
 			return(FALSE);
 
@@ -1006,6 +1029,8 @@ bool ArchiveOutbound(void)
    struct osFileEntry *fe;
    char buf[200];
 
+	jbFreeList(&BusyList);
+
 	/* Orphan files */
 
    LogWrite(3,ACTIONINFO,"Scanning for orphan files");
-- 
2.43.0


From 413f09391268f8312ccf487f821738ae368e5ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:10 +0000
Subject: [PATCH 71/95] fix: crashwrite could overwrite the packet of another
 instance and left incomplete packets

---
 src/tools/crashwrite.c | 56 +++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 15 deletions(-)

diff --git a/src/tools/crashwrite.c b/src/tools/crashwrite.c
index dd148e0..1030d31 100644
--- a/src/tools/crashwrite.c
+++ b/src/tools/crashwrite.c
@@ -109,7 +109,7 @@ int main(int argc, char **argv)
 	uint32_t pktnum,c,serial;
 	uint16_t attr;
 	char fromname[36],toname[36],subject[72],datetime[20],origin[80];
-	char pktname[30],fullname[200],readbuf[100];
+	char pktname[30],fullname[200],tmpname[200],readbuf[100];
 	int i;
 	
 	from4d.Zone=0;
@@ -260,24 +260,41 @@ int main(int argc, char **argv)
 
 	/* Create pkt file */
 
-	serial=0;
+	/* The packet is written under a temporary name, which also keeps other
+      instances from using the same packet name */
 
-   do
-   {
+	for(serial=0;;serial++)
+	{
       t=time(NULL);
       pktnum = (t<<8) + serial;
-		serial++;
+
       sprintf(pktname,"%08x.pkt",pktnum);
       MakeFullPath(args[ARG_DIR].data,pktname,fullname,200);
-   } while(osExists(fullname));
 
-   if(!(ofh=osOpen(fullname,MODE_NEWFILE)))
-   {
-		uint32_t err=osError();
-      printf("Unable to create packet %s\n",fullname);
-		printf("Error: %s\n",osErrorMsg(err));		
-		osEnd();
-      exit(OS_EXIT_ERROR);
+		if(osExists(fullname))
+			continue;
+
+      sprintf(pktname,"%08x.tmp",pktnum);
+      MakeFullPath(args[ARG_DIR].data,pktname,tmpname,200);
+
+	   if(!(ofh=osOpen(tmpname,MODE_EXCLUSIVE)))
+	   {
+			uint32_t err=osError();
+
+			if(err == EEXIST || osExists(tmpname))
+				continue;
+
+	      printf("Unable to create packet %s\n",tmpname);
+			printf("Error: %s\n",osErrorMsg(err));		
+			osEnd();
+	      exit(OS_EXIT_ERROR);
+	   }
+
+		if(!osExists(fullname))
+			break;
+
+		osClose(ofh);
+		osDelete(tmpname);
    }
 
    printf("Writing...\n");
@@ -326,7 +343,8 @@ int main(int argc, char **argv)
       	printf("Unable to open \"%s\" for reading\n",(char *)args[ARG_TEXT].data);
 			printf("Error: %s\n",osErrorMsg(err));		
 			osClose(ofh);
-			osDelete(fullname);
+			osDelete(tmpname);
+			osEnd();
 			exit(OS_EXIT_ERROR);
       }
 
@@ -351,7 +369,15 @@ int main(int argc, char **argv)
    osWrite(ofh,"",1);
    osWrite(ofh,"",1);
 
-   osClose(ofh);
+	if(!osClose(ofh) || !osRename(tmpname,fullname))
+	{
+		uint32_t err=osError();
+		printf("Unable to write packet %s\n",fullname);
+		printf("Error: %s\n",osErrorMsg(err));		
+		osDelete(tmpname);
+		osEnd();
+		exit(OS_EXIT_ERROR);
+	}
 
 	osEnd();
 
-- 
2.43.0


From 100da99eee1bc20a3eda3385e3f040224eafbcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:24 +0000
Subject: [PATCH 72/95] fix: crashwrite wrote an extra empty line if a CRLF was
 divided between two reads

---
 src/tools/crashwrite.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/tools/crashwrite.c b/src/tools/crashwrite.c
index 1030d31..51701d6 100644
--- a/src/tools/crashwrite.c
+++ b/src/tools/crashwrite.c
@@ -110,6 +110,7 @@ int main(int argc, char **argv)
 	uint16_t attr;
 	char fromname[36],toname[36],subject[72],datetime[20],origin[80];
 	char pktname[30],fullname[200],tmpname[200],readbuf[100];
+	char lastch;
 	int i;
 	
 	from4d.Zone=0;
@@ -348,8 +349,20 @@ int main(int argc, char **argv)
 			exit(OS_EXIT_ERROR);
       }
 
+		lastch='\n';
+
       while(osFGets(ifh,readbuf,100))
       {
+			/* CRLF divided between two reads */
+
+			if(lastch == '\r' && readbuf[0] == '\n')
+			{
+				lastch='\n';
+				continue;
+			}
+
+			lastch=readbuf[strlen(readbuf)-1];
+
 			for(i=0;readbuf[i];i++)
 				if(readbuf[i] == '\n') readbuf[i]=0x0d;
 
-- 
2.43.0


From fb0b107edde2b464cec8cc29544c17f14e6dec32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:24 +0000
Subject: [PATCH 73/95] fix: crashwrite put the tear line at the end of the
 last text line if it was not terminated

---
 src/tools/crashwrite.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tools/crashwrite.c b/src/tools/crashwrite.c
index 51701d6..e62bf1b 100644
--- a/src/tools/crashwrite.c
+++ b/src/tools/crashwrite.c
@@ -369,6 +369,11 @@ int main(int argc, char **argv)
          osFPrintf(ofh,"%s",readbuf);
       }
 
+		/* The tear line has to be on a line of its own */
+
+		if(lastch != '\n' && lastch != '\r')
+			osPutChar(ofh,0x0d);
+
 		osClose(ifh);
 	}
 	
-- 
2.43.0


From 8b8262bf1cd4ce3d55aa60c8a3351a73ef5ae145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:27 +0000
Subject: [PATCH 74/95] fix: the nodelist index was unusable while crashlist
 was running and if it failed

---
 src/tools/crashlist.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/tools/crashlist.c b/src/tools/crashlist.c
index c0bc4f4..d8e7793 100644
--- a/src/tools/crashlist.c
+++ b/src/tools/crashlist.c
@@ -255,7 +255,7 @@ void ProcessList(char *dir,char *file,osFile ifh,uint16_t defzone)
 int main(int argc, char **argv)
 {
    osFile lfh,ifh;
-   char *dir,buf[200],cfgbuf[200],file[100];
+   char *dir,buf[200],idxname[200],tmpname[200],cfgbuf[200],file[100];
    uint32_t jbcpos,zone;  
 
    if(!osInit())
@@ -296,12 +296,13 @@ int main(int argc, char **argv)
       exit(OS_EXIT_ERROR);
    }
 
-	MakeFullPath(dir,"cmnodelist.index",buf,200);
+	MakeFullPath(dir,"cmnodelist.index",idxname,200);
+	MakeFullPath(dir,"cmnodelist.tmp",tmpname,200);
 
-   if(!(ifh=osOpen(buf,MODE_NEWFILE)))
+   if(!(ifh=osOpen(tmpname,MODE_NEWFILE)))
    {
 		uint32_t err=osError();
-      printf("Failed to open %s for writing (nodelist in use?)\n",buf);
+      printf("Failed to open %s for writing\n",tmpname);
 		printf("Error: %s\n",osErrorMsg(err));		
 		osClose(lfh);
       osEnd();
@@ -329,7 +330,18 @@ int main(int argc, char **argv)
 	}
 	
 	osClose(lfh);
-	osClose(ifh);
+
+	/* The old index is not replaced until the new one is complete */
+
+	if(!osClose(ifh) || !osRename(tmpname,idxname))
+	{
+		uint32_t err=osError();
+		printf("Failed to write %s (nodelist in use?)\n",idxname);
+		printf("Error: %s\n",osErrorMsg(err));		
+		osDelete(tmpname);
+		osEnd();
+		exit(OS_EXIT_ERROR);
+	}
 
    osEnd();
    
-- 
2.43.0


From 07d3ebe1aedb2ffb650ce55cc9d29ab9114faa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:27 +0000
Subject: [PATCH 75/95] fix: crashlist used nodelists whose name is just the
 beginning of the configured name

---
 src/tools/crashlist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/crashlist.c b/src/tools/crashlist.c
index d8e7793..2a0f26b 100644
--- a/src/tools/crashlist.c
+++ b/src/tools/crashlist.c
@@ -91,7 +91,7 @@ void scandirfunc(char *file)
 
 	if(isnodelistending(file))
    {
-   	if(strnicmp(file,findfile,strlen(file)-4)==0)
+   	if(strlen(findfile)==strlen(file)-4 && strnicmp(file,findfile,strlen(file)-4)==0)
       {
 			MakeFullPath(finddir,file,buf,500);
 			
-- 
2.43.0


From 2995039698356dd838f821c29390ee7b440b4e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:27 +0000
Subject: [PATCH 76/95] fix: crashlist wrote uninitialized data to the nodelist
 index

---
 src/tools/crashlist.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tools/crashlist.c b/src/tools/crashlist.c
index 2a0f26b..d69bae5 100644
--- a/src/tools/crashlist.c
+++ b/src/tools/crashlist.c
@@ -143,7 +143,7 @@ bool FindList(char *dir,char *file,char *dest)
 void ProcessList(char *dir,char *file,osFile ifh,uint16_t defzone)
 {
 	struct idx idx;
-	char buf[500];
+	char buf[500],name[100];
 	osFile nfh;
 	
 	if(!FindList(dir,file,buf))
@@ -157,9 +157,10 @@ void ProcessList(char *dir,char *file,osFile ifh,uint16_t defzone)
 		return;
 	}
 
-	strcpy(buf,(char *)GetFilePart(buf));
-	printf("Processing nodelist %s...\n",buf);
-	osWrite(ifh,buf,100);
+	memset(name,0,100);
+	mystrncpy(name,(char *)GetFilePart(buf),100);
+	printf("Processing nodelist %s...\n",name);
+	osWrite(ifh,name,100);
 
 	idx.zone=defzone;
 	idx.net=0;
-- 
2.43.0


From af35c1f72462a23d36a55755d69385f1e38a8283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:27 +0000
Subject: [PATCH 77/95] fix: crashlist took the rest of very long lines as
 lines of their own

---
 src/tools/crashlist.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/tools/crashlist.c b/src/tools/crashlist.c
index d69bae5..4b9318d 100644
--- a/src/tools/crashlist.c
+++ b/src/tools/crashlist.c
@@ -144,6 +144,7 @@ void ProcessList(char *dir,char *file,osFile ifh,uint16_t defzone)
 {
 	struct idx idx;
 	char buf[500],name[100];
+	bool linestart,continued;
 	osFile nfh;
 	
 	if(!FindList(dir,file,buf))
@@ -171,9 +172,21 @@ void ProcessList(char *dir,char *file,osFile ifh,uint16_t defzone)
 	idx.offset=0;
 	
 	idx.offset=osFTell(nfh);	
+	linestart=TRUE;
 
    while(osFGets(nfh,buf,500))
    {
+		/* The rest of a long line is not a line of its own */
+
+		continued=!linestart;
+		linestart=(buf[strlen(buf)-1]=='\n');
+
+		if(continued)
+		{
+			idx.offset=osFTell(nfh);	
+			continue;
+		}
+
 		if(strnicmp(buf,"Zone,",5)==0)
 		{
 			idx.zone=atoi(&buf[5]);
-- 
2.43.0


From 7fe346b1731e81aafafbe3b9cc83a25e5a876dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:27 +0000
Subject: [PATCH 78/95] fix: looking up node 0:0/0 found the end marker of the
 nodelist index

---
 src/cmnllib/cmnllib.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cmnllib/cmnllib.c b/src/cmnllib/cmnllib.c
index 4fd74da..a9b81cf 100644
--- a/src/cmnllib/cmnllib.c
+++ b/src/cmnllib/cmnllib.c
@@ -113,6 +113,8 @@ bool cmnlFindNL(osFile nl,char *dir,struct cmnlIdx *cmnlidx,char *line,uint32_t
 
 			found=TRUE;
 
+			if(idx.offset == 0xffffffff) found=FALSE; /* End of this nodelist */
+
 			if(cmnlidx->zone  != idx.zone)  found=FALSE;
 			if(cmnlidx->net   != idx.net)   found=FALSE;
 			if(cmnlidx->node  != idx.node)  found=FALSE;
-- 
2.43.0


From c16f02ac3a7e5daa976439d1706edd8dc1e58535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:27 +0000
Subject: [PATCH 79/95] fix: crashlistout showed all sizes in megabytes

---
 src/tools/crashlistout.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/crashlistout.c b/src/tools/crashlistout.c
index 119e5ae..d0b9c40 100644
--- a/src/tools/crashlistout.c
+++ b/src/tools/crashlistout.c
@@ -179,8 +179,8 @@ int Compare4DPat(struct Node4DPat *nodepat,struct Node4D *node)
 char *unit(uint32_t i)
 {
    static char buf[20];
-   if ((i>10000000)||(i<-10000000)) sprintf(buf,"%uM",i/(1024*1024));
-   else if ((i>10000)||(i<-10000)) sprintf(buf,"%uK",i/1024);
+   if (i>10000000) sprintf(buf,"%uM",i/(1024*1024));
+   else if (i>10000) sprintf(buf,"%uK",i/1024);
    else sprintf(buf,"%u",i);
    return buf;
 }
-- 
2.43.0


From ba04960d41797d706982bb2e329cf74c7b7aac5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:27 +0000
Subject: [PATCH 80/95] fix: crashexport ended successfully although the area
 list could not be written

---
 src/tools/crashexport.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/tools/crashexport.c b/src/tools/crashexport.c
index 5abe393..ad7049e 100644
--- a/src/tools/crashexport.c
+++ b/src/tools/crashexport.c
@@ -349,8 +349,17 @@ int main(int argc, char **argv)
    if(tagname[0])
       writearea(ofh);
 
-   osClose(ofh);
    osClose(ifh);
+
+   if(!osClose(ofh))
+   {
+		uint32_t err=osError();
+      printf("Failed to write %s\n",(char *)args[ARG_OUTFILE].data);
+		printf("Error: %s",osErrorMsg(err));		
+      osEnd();
+      exit(OS_EXIT_ERROR);
+   }
+
    osEnd();
    
    exit(OS_EXIT_OK);
-- 
2.43.0


From b4ac7be77c713da4646f8494b6a6aa7faaa9e0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:21 +0000
Subject: [PATCH 81/95] fix: EXISTSNL_* variables ignored =TRUE and =FALSE in
 filters

---
 src/crashmail/filter.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index 5ba9aea..6aa658b 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -412,7 +412,7 @@ int filter_evalfunc(char *str,int *errpos,char **errstr)
          return(-1);
       }
 
-      return res;
+      return filter_comparebool("EXISTSNL_FROMADDR",res,operator,data,opn,datan,errpos,errstr);
    }
 
    if(stricmp(var,"EXISTSNL_FROMBOSS")==0)
@@ -428,7 +428,7 @@ int filter_evalfunc(char *str,int *errpos,char **errstr)
          return(-1);
       }
 
-      return res;
+      return filter_comparebool("EXISTSNL_FROMBOSS",res,operator,data,opn,datan,errpos,errstr);
    }
 
    if(stricmp(var,"EXISTSNL_TOADDR")==0)
@@ -444,7 +444,7 @@ int filter_evalfunc(char *str,int *errpos,char **errstr)
          return(-1);
       }
 
-      return res;
+      return filter_comparebool("EXISTSNL_TOADDR",res,operator,data,opn,datan,errpos,errstr);
    }
 
    if(stricmp(var,"EXISTSNL_TOBOSS")==0)
@@ -460,7 +460,7 @@ int filter_evalfunc(char *str,int *errpos,char **errstr)
          return(-1);
       }
 
-      return res;
+      return filter_comparebool("EXISTSNL_TOBOSS",res,operator,data,opn,datan,errpos,errstr);
    }
 
    if(stricmp(var,"EXISTSCFG_FROMBOSS")==0)
-- 
2.43.0


From 798c10883d42ea29064992c4053121a32507e5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:29 +0000
Subject: [PATCH 82/95] fix: netmail without INTL got the zone of the packet's
 origin as zone of its destination

---
 src/crashmail/pkt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index 228d615..fb125bf 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -333,7 +333,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
       mm->DestNode.Node = getuword(PktMsgHeader,PKTMSGHEADER_DESTNODE);
 
       mm->DestNode.Zone=PktDest.Zone;
-      mm->DestNode.Zone=PktOrig.Zone;
+      mm->OrigNode.Zone=PktOrig.Zone;
 
       mm->Attr=getuword(PktMsgHeader,PKTMSGHEADER_ATTR);
       mm->Cost=getuword(PktMsgHeader,PKTMSGHEADER_COST);
-- 
2.43.0


From 92aba130bdbf2fc45738d639d2e849a62e12788b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:29 +0000
Subject: [PATCH 83/95] fix: zones and points of type 2.2 packets were read
 from the wrong places

---
 src/crashmail/pkt.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index fb125bf..01b9ab9 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -150,15 +150,15 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
    {
       /* PktOrig och PktDest */
 
-      PktOrig.Zone  = getuword(PktHeader,PKTHEADER_ORIGZONE);
-      PktOrig.Net   = getuword(PktHeader,PKTHEADER_ORIGNET);
-      PktOrig.Node  = getuword(PktHeader,PKTHEADER_ORIGNODE);
-      PktOrig.Point = getuword(PktHeader,PKTHEADER_ORIGPOINT);
-
-      PktDest.Zone  = getuword(PktHeader,PKTHEADER_DESTZONE);
-      PktDest.Net   = getuword(PktHeader,PKTHEADER_DESTNET);
-      PktDest.Node  = getuword(PktHeader,PKTHEADER_DESTNODE);
-      PktDest.Point = getuword(PktHeader,PKTHEADER_DESTPOINT);
+      PktOrig.Zone  = getuword(PktHeader,PKTHEADER45_ORIGZONE);
+      PktOrig.Net   = getuword(PktHeader,PKTHEADER45_ORIGNET);
+      PktOrig.Node  = getuword(PktHeader,PKTHEADER45_ORIGNODE);
+      PktOrig.Point = getuword(PktHeader,PKTHEADER45_ORIGPOINT);
+
+      PktDest.Zone  = getuword(PktHeader,PKTHEADER45_DESTZONE);
+      PktDest.Net   = getuword(PktHeader,PKTHEADER45_DESTNET);
+      PktDest.Node  = getuword(PktHeader,PKTHEADER45_DESTNODE);
+      PktDest.Point = getuword(PktHeader,PKTHEADER45_DESTPOINT);
 
 
       pkt_5d=TRUE;
-- 
2.43.0


From e59287349fa8a0e4a854a810284171f6be4394e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:40 +0000
Subject: [PATCH 84/95] fix: other zones of another domain shared the outbound
 of its first zone

---
 src/crashmail/outbound.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index a772038..7e12246 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -64,7 +64,7 @@ void UnlockBasename(char *basename)
 
 void MakeBaseName(struct Node4D *n4d,char *basename)
 {
-   struct Aka *firstaka;
+   struct Aka *firstaka,*domainaka;
    struct Route *tmproute;
    bool samedomain;
    char *ospathchars;
@@ -99,6 +99,17 @@ void MakeBaseName(struct Node4D *n4d,char *basename)
 
       *GetFilePart(basename)=0; /* Use domain as last component in path */
       strcat(basename,tmproute->Aka->Domain);
+
+      /* other zone than that of the first aka in this domain */
+
+      for(domainaka=firstaka;domainaka;domainaka=domainaka->Next)
+         if(stricmp(domainaka->Domain,tmproute->Aka->Domain)==0) break;
+
+      if(n4d->Zone != domainaka->Node.Zone)
+      {
+         sprintf(buf,".%03x", n4d->Zone);
+         strcat(basename, buf);
+      }
    }
    else if(n4d->Zone != firstaka->Node.Zone)
    {
-- 
2.43.0


From 94b719e77c23017fc89c7a167a538f5638449905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:58 +0000
Subject: [PATCH 85/95] fix: a file attach whose subject ends in a slash moved
 the whole inbound into the packet directory

---
 src/crashmail/handle.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 79ec07e..e31c4f1 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -1606,6 +1606,8 @@ bool HandleNetmail(struct MemMessage *mm)
 
 			while(jbstrcpy(buf,subjtemp,80,&jbcpos))
 			{
+				if(*GetFilePart(buf) == 0) continue; /* Not a file */
+
 				if(mm->Subject[0] != 0) strcat(mm->Subject," ");
          	strcat(mm->Subject,GetFilePart(buf));
 
-- 
2.43.0


From fa57f8766e979d3304371e4f5ba4e79b152b2ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:58 +0000
Subject: [PATCH 86/95] fix: an attached file replaced another one of the same
 name which had not been sent yet

---
 src/crashmail/handle.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index e31c4f1..172df22 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -1615,18 +1615,19 @@ bool HandleNetmail(struct MemMessage *mm)
 
             if((mm->Flags & MMFLAG_EXPORTED))
             {
-					if(osExists(buf))
-               {
-						MakeFullPath(config.cfg_PacketDir,GetFilePart(buf),buf2,200);
-                  copyfile(buf,buf2);
+					MakeFullPath(config.cfg_PacketDir,GetFilePart(buf),buf2,200);
 
-						if(nomem || ioerror)
-							return(FALSE);
+					/* A file with this name in the packet directory waits for somebody else */
 
+					if(osExists(buf) && !osExists(buf2) && copyfile(buf,buf2))
+               {
                   AddFlow(buf2,&Dest4D,mm->Type,FLOW_DELETE);
                }
                else
                {
+						if(nomem || ioerror)
+							return(FALSE);
+
                   AddFlow(buf,&Dest4D,mm->Type,FLOW_NONE);
                }
             }
@@ -1635,7 +1636,7 @@ bool HandleNetmail(struct MemMessage *mm)
 					MakeFullPath(config.cfg_Inbound,GetFilePart(buf),buf2,200);
 					MakeFullPath(config.cfg_PacketDir,GetFilePart(buf),buf3,200);
 
-               if(movefile(buf2,buf3))
+               if(!osExists(buf3) && movefile(buf2,buf3))
                {
                   AddFlow(buf3,&Dest4D,mm->Type,FLOW_DELETE);
                }
-- 
2.43.0


From c9de54be1b1066ce56814fc27493847703ff2eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:36 +0000
Subject: [PATCH 87/95] fix: CRCs of MSGID and REPLY in JAM headers were not
 those of the stored fields when these have trailing blanks or are long

---
 src/crashmail/mb_jam.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index fe5a7f5..e4175e4 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -452,8 +452,8 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
    Header_S.DateWritten -= jam_utcoffset;
 
    Header_S.Cost=mm->Cost;
-   Header_S.MsgIdCRC=JAM_Crc32(mm->MSGID,strlen(mm->MSGID));
-   Header_S.ReplyCRC=JAM_Crc32(mm->REPLY,strlen(mm->REPLY));
+   Header_S.MsgIdCRC=JAM_Crc32("",0); /* Set below if there are such kludges */
+   Header_S.ReplyCRC=JAM_Crc32("",0);
 
    /* Add header fields */
 
@@ -574,6 +574,7 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
                mystrncpy(buf,&msgtext[linebegin+7],MIN(100,linelen-7));
                stripleadtrail(buf);
                jam_addfield(SubPacket_PS,JAMSFLD_MSGID,buf);
+               Header_S.MsgIdCRC=JAM_Crc32(buf,strlen(buf));
 					msgpos=linebegin;
             }
             else if(linelen>=7 && strncmp(&msgtext[linebegin],"\x01""REPLY:",7)==0)
@@ -581,6 +582,7 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
                mystrncpy(buf,&msgtext[linebegin+7],MIN(100,linelen-7));
                stripleadtrail(buf);
                jam_addfield(SubPacket_PS,JAMSFLD_REPLYID,buf);
+               Header_S.ReplyCRC=JAM_Crc32(buf,strlen(buf));
 					msgpos=linebegin;
             }
             else if(linelen>=7 && strncmp(&msgtext[linebegin],"\x01""FLAGS:",7)==0)
-- 
2.43.0


From 0b4d4747222523dea89b56d3877eac3e91cdc4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:19 +0000
Subject: [PATCH 88/95] fix: MSGIDs with 8-bit characters were looked up
 outside the CRC table of the dupe check

---
 src/crashmail/dupe.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/dupe.c b/src/crashmail/dupe.c
index 075ccb1..7122725 100644
--- a/src/crashmail/dupe.c
+++ b/src/crashmail/dupe.c
@@ -45,7 +45,7 @@ uint32_t calcstringcrc(char *str)
    crc=0xffffffff;
 
    for(c=0;str[c];c++)
-      crc=(crc>>8) ^ cm_crc32tab[(unsigned char)crc ^ str[c]];
+      crc=(crc>>8) ^ cm_crc32tab[(unsigned char)(crc ^ str[c])];
 
    return(crc);
 }
-- 
2.43.0


From 772d3b46b91913f6173aca99395e46342e044173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:00 +0000
Subject: [PATCH 89/95] fix: a long FLAGS kludge overflowed a buffer when
 imported into a JAM base

---
 src/crashmail/mb_jam.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index e4175e4..8310d9a 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -401,7 +401,7 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
    struct jam_Area *ja;
    s_JamSubPacket*	SubPacket_PS;
    s_JamMsgHeader	Header_S;
-   char buf[100],newflags[100],flag[10];
+   char buf[100],newflags[110],flag[10];
    uint32_t c,f,jbcpos,linebegin,linelen;
    char *msgtext;
    uint32_t msgsize,msgpos;
-- 
2.43.0


From b9ea0a360e94feb5421246b6ea7668dc801b3dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:52 +0000
Subject: [PATCH 90/95] fix: packet names were used again after the clock was
 set back by months

The packet numbers hold the time in 24 bits, so that a time more than 97 days
back looks like a later one. Remember the full time with the last number.
---
 src/crashmail/pkt.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index 01b9ab9..bccb198 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -556,11 +556,12 @@ struct Pkt *FindPkt(struct Node4D *node,struct Node4D *mynode,uint16_t type)
    return(NULL);
 }
 
-/* The number of the last packet is remembered between the runs, so that a name
-   is not used again if the runs follow each other quickly or the clock is set
-   back */
+/* The number of the last packet and the latest time are remembered between the
+   runs, so that a name is not used again if the runs follow each other quickly
+   or the clock is set back */
 
 static uint32_t lastnum;
+static time_t lasttime;
 static bool lastnumread,lastnumchanged;
 
 static void ReadLastNum(void)
@@ -576,8 +577,13 @@ static void ReadLastNum(void)
       return;
 
    if(osFGets(fh,buf,200))
+   {
       lastnum=hextodec(buf);
 
+      if(strchr(buf,' '))
+         lasttime=(time_t)strtoll(strchr(buf,' '),NULL,10);
+   }
+
    osClose(fh);
 }
 
@@ -592,7 +598,7 @@ static void WriteLastNum(void)
    if(!(fh=osOpen(tmpname,MODE_NEWFILE)))
       return;
 
-   osFPrintf(fh,"%08x\n",lastnum);
+   osFPrintf(fh,"%08x %lld\n",lastnum,(long long)lasttime);
 
    if(!osClose(fh) || !osRename(tmpname,name))
       osDelete(tmpname);
@@ -614,11 +620,15 @@ struct Pkt *CreatePkt(struct Node4D *dest,struct ConfigNode *node,struct Node4D
 
    do
    {
-      num=((uint32_t)time(NULL))<<8;
+      time(&t);
+      num=((uint32_t)t)<<8;
 
-      if(lastnum && (int32_t)(num-lastnum) <= 0)
+      if(lastnum && (t < lasttime || (int32_t)(num-lastnum) <= 0))
          num=lastnum+1;
 
+      if(t > lasttime)
+         lasttime=t;
+
       if(num == 0)
          num=1;
 
-- 
2.43.0


From e0be89a38d97c7d64e87798ca0f5846310c56b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:53 +0000
Subject: [PATCH 91/95] fix: tossing failed when another program used the
 number of a new *.msg message first

---
 src/crashmail/mb_msg.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/crashmail/mb_msg.c b/src/crashmail/mb_msg.c
index 5814e9c..73b6548 100644
--- a/src/crashmail/mb_msg.c
+++ b/src/crashmail/mb_msg.c
@@ -153,14 +153,23 @@ bool msg_importfunc(struct MemMessage *mm,struct Area *area)
    sprintf(buf2,"%u.msg",ma->HighMsg);
    MakeFullPath(ma->area->Path,buf2,buf,200);
 
-   while(osExists(buf))
+   for(;;)
    {
-      ma->HighMsg++;
-      sprintf(buf2,"%u.msg",ma->HighMsg);
-      MakeFullPath(ma->area->Path,buf2,buf,200);
-   }
+      while(osExists(buf))
+      {
+         ma->HighMsg++;
+         sprintf(buf2,"%u.msg",ma->HighMsg);
+         MakeFullPath(ma->area->Path,buf2,buf,200);
+      }
+
+      if(msg_WriteMSG(mm,buf))
+         return(TRUE);
 
-   return msg_WriteMSG(mm,buf);
+      /* Try the next number if another program has just taken this one */
+
+      if(ioerror || nomem || !osExists(buf))
+         return(FALSE);
+   }
 }
 
 bool msg_rescanfunc(struct Area *area,uint32_t max,bool (*handlefunc)(struct MemMessage *mm))
-- 
2.43.0


From 1bb325bec006a43a651b3c73502fb816d272950d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:30 +0000
Subject: [PATCH 92/95] fix: a packet waiting for packing was overwritten when
 the last number could not be saved and the clock was set back

---
 src/crashmail/pkt.c | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index bccb198..0ba3188 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -564,6 +564,26 @@ static uint32_t lastnum;
 static time_t lasttime;
 static bool lastnumread,lastnumchanged;
 
+/* Packets that wait for packing may have later numbers if the last number
+   could not be saved */
+
+static void WaitingPacket(char *file)
+{
+   uint32_t num;
+   int c;
+
+   for(c=0;c<8;c++)
+      if(!isxdigit((unsigned char)file[c])) return;
+
+   if(file[8] != '_')
+      return;
+
+   num=hextodec(file);
+
+   if(lastnum == 0 || (int32_t)(num-lastnum) > 0)
+      lastnum=num;
+}
+
 static void ReadLastNum(void)
 {
    osFile fh;
@@ -573,18 +593,21 @@ static void ReadLastNum(void)
 
    MakeFullPath(config.cfg_PacketDir,"cmserial",buf,200);
 
-   if(!osExists(buf) || !(fh=osOpen(buf,MODE_OLDFILE)))
-      return;
-
-   if(osFGets(fh,buf,200))
+   if(osExists(buf) && (fh=osOpen(buf,MODE_OLDFILE)))
    {
-      lastnum=hextodec(buf);
+      if(osFGets(fh,buf,200))
+      {
+         lastnum=hextodec(buf);
 
-      if(strchr(buf,' '))
-         lasttime=(time_t)strtoll(strchr(buf,' '),NULL,10);
+         if(strchr(buf,' '))
+            lasttime=(time_t)strtoll(strchr(buf,' '),NULL,10);
+      }
+
+      osClose(fh);
    }
 
-   osClose(fh);
+   osScanDir(config.cfg_PacketDir,WaitingPacket);
+   osScanDir(config.cfg_PacketCreate,WaitingPacket);
 }
 
 static void WriteLastNum(void)
-- 
2.43.0


From f091a22cc2dbc7e6b556dfd80cda10dad77b4a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:30 +0000
Subject: [PATCH 93/95] fix: files attached to netmail could get lost when a
 system was busy, the disk was full or the run was killed

---
 src/crashmail/handle.c   | 37 ++++++++++++++------
 src/crashmail/outbound.c | 73 ++++++++++++++++++++++++++++++----------
 src/crashmail/outbound.h |  2 ++
 3 files changed, 85 insertions(+), 27 deletions(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 172df22..2a7a85d 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -1157,12 +1157,12 @@ bool HandleNetmail(struct MemMessage *mm)
    struct AreaFixName *areafixname;
    struct TextChunk *chunk;
    bool istext;
-   char buf[400],buf2[200],buf3[200],subjtemp[80];
+   char buf[400],buf2[200],buf3[200],orphanname[210],subjtemp[80];
    uint32_t c,d,jbcpos;
    time_t t;
    struct tm *tp;
 	uint8_t oldtype;
-   bool headeronly;
+   bool headeronly,queued;
 
    /* Set zones if they are zero */
 
@@ -1621,14 +1621,14 @@ bool HandleNetmail(struct MemMessage *mm)
 
 					if(osExists(buf) && !osExists(buf2) && copyfile(buf,buf2))
                {
-                  AddFlow(buf2,&Dest4D,mm->Type,FLOW_DELETE);
+                  queued=AddFlow(buf2,&Dest4D,mm->Type,FLOW_DELETE);
                }
                else
                {
 						if(nomem || ioerror)
 							return(FALSE);
 
-                  AddFlow(buf,&Dest4D,mm->Type,FLOW_NONE);
+                  queued=AddFlow(buf,&Dest4D,mm->Type,FLOW_NONE);
                }
             }
             else
@@ -1636,14 +1636,31 @@ bool HandleNetmail(struct MemMessage *mm)
 					MakeFullPath(config.cfg_Inbound,GetFilePart(buf),buf2,200);
 					MakeFullPath(config.cfg_PacketDir,GetFilePart(buf),buf3,200);
 
-               if(!osExists(buf3) && movefile(buf2,buf3))
-               {
-                  AddFlow(buf3,&Dest4D,mm->Type,FLOW_DELETE);
-               }
-               else
+               queued=FALSE;
+
+               if(osExists(buf2) && !osExists(buf3) && MakeOrphan(buf3,&Dest4D,mm->Type,FLOW_DELETE))
                {
-                  AddFlow(buf2,&Dest4D,mm->Type,FLOW_DELETE);
+                  /* The orphan file gets it into the flow file later if
+                     anything goes wrong from here on */
+
+                  sprintf(orphanname,"%s.orphan",buf3);
+
+                  if(movefile(buf2,buf3))
+                     queued=TRUE;
+
+                  if(!queued || TryAddFlow(buf3,&Dest4D,mm->Type,FLOW_DELETE))
+                     osDelete(orphanname);
                }
+
+               if(!queued)
+                  queued=AddFlow(buf2,&Dest4D,mm->Type,FLOW_DELETE);
+            }
+
+            if(!queued)
+            {
+               ioerror=TRUE;
+               ioerrornum=osError();
+               return(FALSE);
             }
          }
       }
diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index 7e12246..44af8af 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -401,7 +401,7 @@ void DeleteZero(char *dir,struct jbList *arclist)
 void HandleOrphan(char *name)
 {
    osFile fh;
-   char buf[200],buf2[200];
+   char line[400],buf[200],buf2[200];
    char type;
    bool mode;
    uint32_t jbcpos;
@@ -416,7 +416,7 @@ void HandleOrphan(char *name)
       return;
    }
 
-   if(!osFGets(fh,buf,100))
+   if(!osFGets(fh,line,400))
    {
       LogWrite(1,SYSTEMERR,"Orphan file \"%s\" contains no information",name);
       osClose(fh);
@@ -425,7 +425,7 @@ void HandleOrphan(char *name)
 
    osClose(fh);
 
-   if(!strchr(buf,'\n'))
+   if(!strchr(line,'\n'))
    {
       LogWrite(1,SYSTEMERR,"Orphan file \"%s\" is incomplete",name);
       return;
@@ -433,7 +433,7 @@ void HandleOrphan(char *name)
 
    jbcpos=0;
 
-   jbstrcpy(buf2,buf,100,&jbcpos);
+   jbstrcpy(buf2,line,100,&jbcpos);
 
    if(stricmp(buf2,"Normal")==0)
       type=PKTS_NORMAL;
@@ -453,7 +453,7 @@ void HandleOrphan(char *name)
       return;
    }
 
-   jbstrcpy(buf2,buf,100,&jbcpos);
+   jbstrcpy(buf2,line,100,&jbcpos);
 
    if(!Parse4D(buf2,&n4d))
    {
@@ -463,7 +463,7 @@ void HandleOrphan(char *name)
 
    mode=FLOW_NONE;
 
-   jbstrcpy(buf2,buf,100,&jbcpos);
+   jbstrcpy(buf2,line,100,&jbcpos);
 
    if(stricmp(buf2,"Truncate")==0)
       mode=FLOW_TRUNC;
@@ -471,8 +471,22 @@ void HandleOrphan(char *name)
    if(stricmp(buf2,"Delete")==0)
       mode=FLOW_DELETE;
 
-   mystrncpy(buf,name,200);
-   buf[strlen(buf)-7]=0; /* Remove .orphan */
+   /* Files outside the packet directory are named in the orphan file */
+
+   striptrail(line);
+
+   while(line[jbcpos] == ' ')
+      jbcpos++;
+
+   if(line[jbcpos])
+   {
+      mystrncpy(buf,&line[jbcpos],200);
+   }
+   else
+   {
+      mystrncpy(buf,name,200);
+      buf[strlen(buf)-7]=0; /* Remove .orphan */
+   }
 
    MakeBaseName(&n4d,basename);
 
@@ -499,11 +513,21 @@ void HandleOrphan(char *name)
 
 bool MakeOrphan(char *file,struct Node4D *n4d,char type,long mode)
 {
-   char buf[200],orphanname[200];
+   char buf[400],name[200],orphanname[230];
    osFile fh;
+   bool outside;
+   int num;
+
+   MakeFullPath(config.cfg_PacketDir,GetFilePart(file),name,200);
+   sprintf(orphanname,"%s.orphan",name);
+
+   /* Orphan files are only looked for in the packet directory */
 
-   strcpy(orphanname,file);
-   strcat(orphanname,".orphan");
+   outside=(strcmp(name,file)!=0);
+
+   if(outside)
+      for(num=1;osExists(orphanname);num++)
+         sprintf(orphanname,"%s.%d.orphan",name,num);
 
    if(!(fh=osOpen(orphanname,MODE_NEWFILE)))
    {
@@ -516,6 +540,13 @@ bool MakeOrphan(char *file,struct Node4D *n4d,char type,long mode)
    sprintf(buf,"%s %d:%d/%d.%d",prinames[(int)type],n4d->Zone,n4d->Net,n4d->Node,n4d->Point);
    if(mode==FLOW_TRUNC) strcat(buf," Truncate");
    else if(mode==FLOW_DELETE) strcat(buf," Delete");
+   else if(outside) strcat(buf," None");
+
+   if(outside)
+   {
+      strcat(buf," ");
+      strcat(buf,file);
+   }
 
    strcat(buf,"\n");
 
@@ -712,26 +743,34 @@ bool doAddFlow(char *filename,char *basename,char type,long mode)
    return(TRUE);
 }
 
-/* Handles locking and MakeOrphan() */
-bool AddFlow(char *filename,struct Node4D *n4d,char type,long mode)
+/* Handles locking */
+bool TryAddFlow(char *filename,struct Node4D *n4d,char type,long mode)
 {
 	char basename[200];
+	bool res;
 
    MakeBaseName(n4d,basename);
 
 	if(!LockBasename(basename))
 	{
 		printf("Cannot add to %s, node is busy...\n",GetFilePart(basename));
-		MakeOrphan(filename,n4d,type,mode);
 		return(FALSE);
 	}
 
-	if(!doAddFlow(filename,basename,type,mode))
-		MakeOrphan(filename,n4d,type,mode);
+	res=doAddFlow(filename,basename,type,mode);
 
 	UnlockBasename(basename);
 
-	return(TRUE);
+	return(res);
+}
+
+/* Handles locking and MakeOrphan() */
+bool AddFlow(char *filename,struct Node4D *n4d,char type,long mode)
+{
+	if(TryAddFlow(filename,n4d,type,mode))
+		return(TRUE);
+
+	return MakeOrphan(filename,n4d,type,mode);
 }
 
 bool MakePktTmp(char *name)
diff --git a/src/crashmail/outbound.h b/src/crashmail/outbound.h
index 5877b25..2e49967 100644
--- a/src/crashmail/outbound.h
+++ b/src/crashmail/outbound.h
@@ -5,3 +5,5 @@
 bool ArchiveOutbound(void);
 void MakeBaseName(struct Node4D *n4d,char *basename);
 bool AddFlow(char *filename,struct Node4D *n4d,char type,long mode);
+bool TryAddFlow(char *filename,struct Node4D *n4d,char type,long mode);
+bool MakeOrphan(char *file,struct Node4D *n4d,char type,long mode);
-- 
2.43.0


From a92f9d6ad9ef9cdc826b0294a7ae2947df4a9e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:34 +0000
Subject: [PATCH 94/95] fix: running out of memory or failing to copy in a
 filter was ignored

A message that a filter should have copied, killed or masqueraded was
handled as if the filter had not matched (or with parts of its text
missing) when memory ran out or when the copy could not be written.
The message is now left for the next run.
---
 src/crashmail/filter.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index 6aa658b..8bbb713 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -540,6 +540,7 @@ bool Filter_Copy(struct MemMessage *mm,char *tagname)
    struct TextChunk *tmp;
    struct jbList oldlist;
    char buf[200];
+   bool res;
 
    LogWrite(4,TOSSINGINFO,"Filter: Copying message to area %s",tagname);
 
@@ -563,17 +564,20 @@ bool Filter_Copy(struct MemMessage *mm,char *tagname)
    for(tmp=(struct TextChunk *)oldlist.First;tmp;tmp=tmp->Next)
       mmAddBuf(&mm->TextChunks,tmp->Data,tmp->Length);
 
-   if(!((*area->Messagebase->importfunc)(mm,area)))
-      return(FALSE);
+   res=FALSE;
+
+   if(!nomem)
+      res=(*area->Messagebase->importfunc)(mm,area);
 
-   area->NewTexts++;
+   if(res)
+      area->NewTexts++;
 
    jbFreeList(&mm->TextChunks);
 
    mm->TextChunks.First=oldlist.First;
    mm->TextChunks.Last=oldlist.Last;
 
-   return(TRUE);
+   return(res);
 }
 
 bool Filter_WriteBad(struct MemMessage *mm,char *reason)
@@ -973,6 +977,9 @@ bool Filter_Masquerade(struct MemMessage *mm,char *namepat,struct Node4DPat *des
 		AddNodePath(&mm->Path, &neworig4d); 
 	}
 
+	if(nomem)
+		return(FALSE);
+
 	return TRUE;
 }
 
@@ -998,6 +1005,12 @@ bool Filter(struct MemMessage *mm)
 
       if(res == -1)
       {
+         if(strcmp(errstr,"Out of memory")==0)
+         {
+            nomem=TRUE;
+            return(FALSE);
+         }
+
          /* Error. All these should be caught in config.c/CheckConfig() */
 
          LogWrite(3,TOSSINGERR,"Syntax error in filter");
@@ -1021,7 +1034,9 @@ bool Filter(struct MemMessage *mm)
 						break;
 
 					case COMMAND_COPY:
-						Filter_Copy(mm,command->string);
+						if(!Filter_Copy(mm,command->string))
+							return(FALSE);
+
 						break;
 
                case COMMAND_EXECUTE:
-- 
2.43.0


From bab4561d328c3181867be707ef122bf80d47f295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:34 +0000
Subject: [PATCH 95/95] fix: a command in a filter was run on a message file
 that could not be written

Filter_Execute() ignored the results of WriteRFC() and WriteMSG(), which
in turn ignored the result of osClose(). The command was run on a missing
or incomplete file and the message was killed afterwards.
---
 src/crashmail/filter.c | 21 ++++++++++++++++-----
 src/crashmail/misc.c   |  6 ++++--
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index 8bbb713..437fbdc 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -624,6 +624,7 @@ bool Filter_Execute(struct MemMessage *mm,char *cmd)
    char origbuf[30],destbuf[30];
    char buf[400];
 	int arcres;
+   bool ok;
 
    msg=FALSE;
    rfc1=FALSE;
@@ -661,18 +662,28 @@ bool Filter_Execute(struct MemMessage *mm,char *cmd)
       origbuf,
       destbuf);
 
-   if(rfc1) WriteRFC(mm,rfcbuf1,FALSE);
-	if(rfc2) WriteRFC(mm,rfcbuf2,TRUE);
-   if(msg)  WriteMSG(mm,msgbuf);
+   ok=TRUE;
 
-   LogWrite(4,SYSTEMINFO,"Filter: Executing external command \"%s\"",buf);
+   if(ok && rfc1) ok=WriteRFC(mm,rfcbuf1,FALSE);
+   if(ok && rfc2) ok=WriteRFC(mm,rfcbuf2,TRUE);
+   if(ok && msg)  ok=WriteMSG(mm,msgbuf);
 
-   arcres=osExecute(buf);
+   arcres=0;
+
+   if(ok)
+   {
+      LogWrite(4,SYSTEMINFO,"Filter: Executing external command \"%s\"",buf);
+
+      arcres=osExecute(buf);
+   }
 
    if(rfc1) osDelete(rfcbuf1);
    if(rfc2) osDelete(rfcbuf2);
    if(msg) osDelete(msgbuf);
 
+   if(!ok)
+      return(FALSE);
+
    if(arcres == 0)
    {
    	/* Command ok */
diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index d76fd09..c758f59 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -875,7 +875,8 @@ bool WriteRFC(struct MemMessage *mm,char *name,bool rfcaddr)
       }
    }
 
-   osClose(fh);
+   if(!osClose(fh))
+		{ ioerror=TRUE; ioerrornum=osError(); }
 
    if(ioerror)
       return(FALSE);
@@ -989,7 +990,8 @@ bool WriteMSG(struct MemMessage *mm,char *file)
    if(!osPutChar(fh,0))
 		{ ioerror=TRUE; ioerrornum=osError(); }
 
-   osClose(fh);
+   if(!osClose(fh))
+		{ ioerror=TRUE; ioerrornum=osError(); }
 
    if(ioerror)
       return(FALSE);
-- 
2.43.0

