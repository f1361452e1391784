From 312af27eb77ec48f534ef9ae70f3590372e94332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:45 +0000
Subject: [PATCH 01/34] fix: report success of FilePauseAllPars and
 FilePauseExtraPars

The commands were executed but always reported as failed because the item
list is emptied during the processing.
---
 daemon/queue/QueueEditor.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/daemon/queue/QueueEditor.cpp b/daemon/queue/QueueEditor.cpp
index 8dc070d..8fa3608 100644
--- a/daemon/queue/QueueEditor.cpp
+++ b/daemon/queue/QueueEditor.cpp
@@ -346,8 +346,12 @@ bool QueueEditor::InternEditList(ItemList* itemList,
 	{
 		case DownloadQueue::eaFilePauseAllPars:
 		case DownloadQueue::eaFilePauseExtraPars:
+		{
+			// the list is consumed when processing
+			bool found = itemList->size() > 0;
 			PauseParsInGroups(itemList, action == DownloadQueue::eaFilePauseExtraPars);
-			break;
+			return found;
+		}
 
 		case DownloadQueue::eaGroupMerge:
 			return MergeGroups(itemList);
-- 
2.43.0


From d78d8babe808aba0f29cd70d7af88114574d5abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:45 +0000
Subject: [PATCH 02/34] fix: result of GroupMerge was inverted

---
 daemon/queue/QueueEditor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/queue/QueueEditor.cpp b/daemon/queue/QueueEditor.cpp
index 8fa3608..28578bb 100644
--- a/daemon/queue/QueueEditor.cpp
+++ b/daemon/queue/QueueEditor.cpp
@@ -1014,7 +1014,7 @@ bool QueueEditor::MergeGroups(ItemList* itemList)
 		if (item.m_nzbInfo != destItem.m_nzbInfo)
 		{
 			debug("merge %s to %s", item.m_nzbInfo->GetFilename(), destItem.m_nzbInfo->GetFilename());
-			if (g_QueueCoordinator->MergeQueueEntries(m_downloadQueue, destItem.m_nzbInfo, item.m_nzbInfo))
+			if (!g_QueueCoordinator->MergeQueueEntries(m_downloadQueue, destItem.m_nzbInfo, item.m_nzbInfo))
 			{
 				ok = false;
 			}
-- 
2.43.0


From 91c858dbc9d59992e07d7100894b6282d4005dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:45 +0000
Subject: [PATCH 03/34] fix: use of deleted queue items when an edit command
 contains the same id more than once

---
 daemon/queue/QueueEditor.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/daemon/queue/QueueEditor.cpp b/daemon/queue/QueueEditor.cpp
index 28578bb..38ca9bc 100644
--- a/daemon/queue/QueueEditor.cpp
+++ b/daemon/queue/QueueEditor.cpp
@@ -604,9 +604,10 @@ void QueueEditor::PrepareList(ItemList* itemList, IdList* idList,
 		}
 
 		//add IDs to list in order they were transmitted in command
+		std::set<int> uniqueIds;
 		for (int id : *idList)
 		{
-			if (minId <= id && id <= maxId)
+			if (minId <= id && id <= maxId && uniqueIds.insert(id).second)
 			{
 				FileInfo* fileInfo = FindFileInfo(id);
 				if (fileInfo)
@@ -635,9 +636,10 @@ void QueueEditor::PrepareList(ItemList* itemList, IdList* idList,
 		}
 
 		//add IDs to list in order they were transmitted in command
+		std::set<int> uniqueIds;
 		for (int id : *idList)
 		{
-			if (minId <= id && id <= maxId)
+			if (minId <= id && id <= maxId && uniqueIds.insert(id).second)
 			{
 				for (NzbInfo* nzbInfo : m_downloadQueue->GetQueue())
 				{
-- 
2.43.0


From 40591e95aa52f7c98ea24a94b495b7d137c7a489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:45 +0000
Subject: [PATCH 04/34] fix: crash when splitting files of different nzb-files

---
 daemon/queue/QueueCoordinator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/daemon/queue/QueueCoordinator.cpp b/daemon/queue/QueueCoordinator.cpp
index 7e12f4c..5dd685f 100644
--- a/daemon/queue/QueueCoordinator.cpp
+++ b/daemon/queue/QueueCoordinator.cpp
@@ -1258,6 +1258,11 @@ bool QueueCoordinator::SplitQueueEntries(DownloadQueue* downloadQueue, RawFileLi
 		{
 			srcNzbInfo = fileInfo->GetNzbInfo();
 		}
+		if (fileInfo->GetNzbInfo() != srcNzbInfo)
+		{
+			error("Could not split %s. Files belong to different nzb-files", fileInfo->GetFilename());
+			return false;
+		}
 	}
 
 	std::unique_ptr<NzbInfo> nzbInfo = std::make_unique<NzbInfo>();
-- 
2.43.0


From 3a3511be72811193688f17c0d9b6af405b9302f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:45 +0000
Subject: [PATCH 05/34] fix: paused files and missing articles were not
 accounted correctly when splitting an nzb-file

---
 daemon/queue/QueueCoordinator.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/daemon/queue/QueueCoordinator.cpp b/daemon/queue/QueueCoordinator.cpp
index 5dd685f..c416b65 100644
--- a/daemon/queue/QueueCoordinator.cpp
+++ b/daemon/queue/QueueCoordinator.cpp
@@ -1292,6 +1292,7 @@ bool QueueCoordinator::SplitQueueEntries(DownloadQueue* downloadQueue, RawFileLi
 		srcNzbInfo->SetSize(srcNzbInfo->GetSize() - fileInfo->GetSize());
 		srcNzbInfo->SetRemainingSize(srcNzbInfo->GetRemainingSize() - fileInfo->GetRemainingSize());
 		srcNzbInfo->SetCurrentSuccessSize(srcNzbInfo->GetCurrentSuccessSize() - fileInfo->GetSuccessSize());
+		srcNzbInfo->SetFailedSize(srcNzbInfo->GetFailedSize() - fileInfo->GetMissedSize());
 		srcNzbInfo->SetCurrentFailedSize(srcNzbInfo->GetCurrentFailedSize() - fileInfo->GetFailedSize() - fileInfo->GetMissedSize());
 		srcNzbInfo->SetTotalArticles(srcNzbInfo->GetTotalArticles() - fileInfo->GetTotalArticles());
 		srcNzbInfo->SetFailedArticles(srcNzbInfo->GetFailedArticles() - fileInfo->GetMissedArticles());
@@ -1303,6 +1304,7 @@ bool QueueCoordinator::SplitQueueEntries(DownloadQueue* downloadQueue, RawFileLi
 		nzbInfo->SetSize(nzbInfo->GetSize() + fileInfo->GetSize());
 		nzbInfo->SetRemainingSize(nzbInfo->GetRemainingSize() + fileInfo->GetRemainingSize());
 		nzbInfo->SetCurrentSuccessSize(nzbInfo->GetCurrentSuccessSize() + fileInfo->GetSuccessSize());
+		nzbInfo->SetFailedSize(nzbInfo->GetFailedSize() + fileInfo->GetMissedSize());
 		nzbInfo->SetCurrentFailedSize(nzbInfo->GetCurrentFailedSize() + fileInfo->GetFailedSize() + fileInfo->GetMissedSize());
 		nzbInfo->SetTotalArticles(nzbInfo->GetTotalArticles() + fileInfo->GetTotalArticles());
 		nzbInfo->SetFailedArticles(nzbInfo->GetFailedArticles() + fileInfo->GetMissedArticles());
@@ -1314,11 +1316,13 @@ bool QueueCoordinator::SplitQueueEntries(DownloadQueue* downloadQueue, RawFileLi
 		{
 			srcNzbInfo->SetParSize(srcNzbInfo->GetParSize() - fileInfo->GetSize());
 			srcNzbInfo->SetParCurrentSuccessSize(srcNzbInfo->GetParCurrentSuccessSize() - fileInfo->GetSuccessSize());
+			srcNzbInfo->SetParFailedSize(srcNzbInfo->GetParFailedSize() - fileInfo->GetMissedSize());
 			srcNzbInfo->SetParCurrentFailedSize(srcNzbInfo->GetParCurrentFailedSize() - fileInfo->GetFailedSize() - fileInfo->GetMissedSize());
 			srcNzbInfo->SetRemainingParCount(srcNzbInfo->GetRemainingParCount() - 1);
 
 			nzbInfo->SetParSize(nzbInfo->GetParSize() + fileInfo->GetSize());
 			nzbInfo->SetParCurrentSuccessSize(nzbInfo->GetParCurrentSuccessSize() + fileInfo->GetSuccessSize());
+			nzbInfo->SetParFailedSize(nzbInfo->GetParFailedSize() + fileInfo->GetMissedSize());
 			nzbInfo->SetParCurrentFailedSize(nzbInfo->GetParCurrentFailedSize() + fileInfo->GetFailedSize() + fileInfo->GetMissedSize());
 			nzbInfo->SetRemainingParCount(nzbInfo->GetRemainingParCount() + 1);
 		}
@@ -1328,7 +1332,7 @@ bool QueueCoordinator::SplitQueueEntries(DownloadQueue* downloadQueue, RawFileLi
 			srcNzbInfo->SetPausedFileCount(srcNzbInfo->GetPausedFileCount() - 1);
 			srcNzbInfo->SetPausedSize(srcNzbInfo->GetPausedSize() - fileInfo->GetRemainingSize());
 
-			nzbInfo->SetPausedFileCount(srcNzbInfo->GetPausedFileCount() + 1);
+			nzbInfo->SetPausedFileCount(nzbInfo->GetPausedFileCount() + 1);
 			nzbInfo->SetPausedSize(nzbInfo->GetPausedSize() + fileInfo->GetRemainingSize());
 		}
 	}
-- 
2.43.0


From 828c76663c3e19d47250d5a1cffd138eb4ad1c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:45 +0000
Subject: [PATCH 06/34] fix: GroupMoveBefore and GroupMoveAfter with a not
 existing target moved groups to an arbitrary place

---
 daemon/queue/QueueEditor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/daemon/queue/QueueEditor.cpp b/daemon/queue/QueueEditor.cpp
index 38ca9bc..a806a09 100644
--- a/daemon/queue/QueueEditor.cpp
+++ b/daemon/queue/QueueEditor.cpp
@@ -1111,6 +1111,11 @@ bool QueueEditor::MoveGroupsTo(ItemList* itemList, IdList* idList, bool before,
 	int targetId = atoi(args);
 	int offset = 0;
 
+	if (!m_downloadQueue->GetQueue()->Find(targetId))
+	{
+		return false;
+	}
+
 	// check if target is in list of moved items
 	if (ItemListContainsItem(itemList, targetId))
 	{
-- 
2.43.0


From f0c1df9f2217a7659dd4ec2605a5823f942ed4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:45 +0000
Subject: [PATCH 07/34] fix: GroupSort with only not existing ids sorted the
 whole queue

---
 daemon/queue/QueueEditor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/daemon/queue/QueueEditor.cpp b/daemon/queue/QueueEditor.cpp
index a806a09..fd646a6 100644
--- a/daemon/queue/QueueEditor.cpp
+++ b/daemon/queue/QueueEditor.cpp
@@ -357,7 +357,8 @@ bool QueueEditor::InternEditList(ItemList* itemList,
 			return MergeGroups(itemList);
 
 		case DownloadQueue::eaGroupSort:
-			return SortGroups(itemList, args);
+			// empty list means "sort all", a list of not existing ids doesn't
+			return (idList->empty() || !itemList->empty()) && SortGroups(itemList, args);
 
 		case DownloadQueue::eaGroupMoveAfter:
 		case DownloadQueue::eaGroupMoveBefore:
-- 
2.43.0


From ad2478f636c657a4f71e400a9e59aac60a5d27ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:06 +0000
Subject: [PATCH 08/34] fix: keep data written before a restart when all
 remaining articles of a file fail

With DirectWrite the output file of a partially downloaded file was only
recognised after one more article of it was written. If all articles left
after a restart failed, the file was completed by joining (not existing)
article files: the data on disk was lost and its articles counted as failed.
---
 daemon/nntp/ArticleWriter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/daemon/nntp/ArticleWriter.cpp b/daemon/nntp/ArticleWriter.cpp
index 60dd782..4d88478 100644
--- a/daemon/nntp/ArticleWriter.cpp
+++ b/daemon/nntp/ArticleWriter.cpp
@@ -297,6 +297,14 @@ void ArticleWriter::CompleteFileParts()
 	debug("Completing file parts");
 	debug("ArticleFilename: %s", m_fileInfo->GetFilename());
 
+	if (g_Options->GetDirectWrite() && !g_Options->GetRawArticle() && m_fileInfo->GetSuccessArticles() > 0 &&
+		!m_fileInfo->GetOutputInitialized() && FileSystem::FileExists(m_outputFilename))
+	{
+		// all articles downloaded in this program session have failed but
+		// there are articles written into output file in a previous session
+		m_fileInfo->SetOutputInitialized(true);
+	}
+
 	bool directWrite = (g_Options->GetDirectWrite() || m_fileInfo->GetForceDirectWrite()) && m_fileInfo->GetOutputInitialized();
 
 	BString<1024> nzbName;
-- 
2.43.0


From 77db56de2fb6a60110bba5afe9f241c3116048d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:09 +0000
Subject: [PATCH 09/34] fix: dupe mode was lost on restart

LoadNzbInfo overwrote the dupe mode with the dupe hint, which was not restored.
---
 daemon/queue/DiskState.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index 89a0690..399d0be 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -817,7 +817,7 @@ bool DiskState::LoadNzbInfo(NzbInfo* nzbInfo, Servers* servers, StateDiskFile& i
 	}
 	nzbInfo->SetDupeMode((EDupeMode)dupeMode);
 	nzbInfo->SetDupeScore(dupeScore);
-	nzbInfo->SetDupeMode((EDupeMode)dupeHint);
+	nzbInfo->SetDupeHint((NzbInfo::EDupeHint)dupeHint);
 
 	if (formatVersion >= 48)
 	{
-- 
2.43.0


From 5542e8521145db1e8b8b73800f89ab8518794f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:23 +0000
Subject: [PATCH 10/34] fix: long values and line breaks corrupted the saved
 queue

StateDiskFile::PrintLine wrote beyond its buffer of 1024 bytes for longer
values (names, parameters), and a line break inside of a value made the
whole queue unreadable on the next start.
---
 daemon/queue/DiskState.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index 399d0be..e0f0ca9 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -45,10 +45,19 @@ int64 StateDiskFile::PrintLine(const char* format, ...)
 {
 	va_list ap;
 	va_start(ap, format);
-	BString<1024> str;
+	CString str;
 	int len = str.FormatV(format, ap);
 	va_end(ap);
 
+	// a line break inside of a value would shift all following values
+	for (char* p = str; *p; p++)
+	{
+		if (*p == '\n' || *p == '\r')
+		{
+			*p = ' ';
+		}
+	}
+
 	// replacing terminating <NULL> with <LF>
 	str[len++] = '\n';
 
-- 
2.43.0


From 0a52349eaf3e55392fafd4ed4259751f42db228b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:14 +0000
Subject: [PATCH 11/34] fix: statistics of the last moments were lost on
 shutdown

---
 daemon/queue/QueueCoordinator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/daemon/queue/QueueCoordinator.cpp b/daemon/queue/QueueCoordinator.cpp
index c416b65..dd97365 100644
--- a/daemon/queue/QueueCoordinator.cpp
+++ b/daemon/queue/QueueCoordinator.cpp
@@ -288,6 +288,7 @@ void QueueCoordinator::Run()
 	SaveAllPartialState();
 	SaveQueueIfChanged();
 	SaveAllFileState();
+	g_StatMeter->Save();
 
 	debug("Exiting QueueCoordinator-loop");
 }
-- 
2.43.0


From ebb88a967bba8f81c768791c4c9724ee050efbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:18 +0000
Subject: [PATCH 12/34] fix: system.multicall executed requests without the
 access level of the user

---
 daemon/remote/XmlRpc.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/daemon/remote/XmlRpc.cpp b/daemon/remote/XmlRpc.cpp
index 0686f29..1b352c0 100644
--- a/daemon/remote/XmlRpc.cpp
+++ b/daemon/remote/XmlRpc.cpp
@@ -470,6 +470,9 @@ void XmlRpcProcessor::MutliCall()
 
 		std::unique_ptr<XmlCommand> command = CreateCommand(methodName);
 		command->SetRequest(requestPtr);
+		command->SetProtocol(m_protocol);
+		command->SetHttpMethod(m_httpMethod);
+		command->SetUserAccess(m_userAccess);
 		m_safeMethod |= command->IsSafeMethod();
 		command->Execute();
 
-- 
2.43.0


From 38c81df1e4e5867d059231568d93e4c0b9600227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:00 +0000
Subject: [PATCH 13/34] fix: calls with parameters via system.multicall always
 failed

---
 daemon/remote/XmlRpc.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/daemon/remote/XmlRpc.cpp b/daemon/remote/XmlRpc.cpp
index 1b352c0..630872b 100644
--- a/daemon/remote/XmlRpc.cpp
+++ b/daemon/remote/XmlRpc.cpp
@@ -468,8 +468,11 @@ void XmlRpcProcessor::MutliCall()
 		WebUtil::XmlParseTagValue(nameEnd, "string", methodName, sizeof(methodName), nullptr);
 		debug("MutliCall, MethodName=%s", methodName);
 
+		// the name of the method isn't a parameter
+		char* params = strstr(requestPtr, "<name>params</name>");
+
 		std::unique_ptr<XmlCommand> command = CreateCommand(methodName);
-		command->SetRequest(requestPtr);
+		command->SetRequest(params ? params : callEnd);
 		command->SetProtocol(m_protocol);
 		command->SetHttpMethod(m_httpMethod);
 		command->SetUserAccess(m_userAccess);
-- 
2.43.0


From b102e9ad8464548af7178387b1e3a62d2f97d83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:00 +0000
Subject: [PATCH 14/34] fix: JSON strings with consecutive escape sequences
 were parsed wrong

---
 daemon/util/Util.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/daemon/util/Util.cpp b/daemon/util/Util.cpp
index f138968..29671fb 100644
--- a/daemon/util/Util.cpp
+++ b/daemon/util/Util.cpp
@@ -1217,6 +1217,7 @@ const char* WebUtil::JsonNextValue(const char* jsonText, int* valueLength)
 		{
 			if (!*++pend || !*++pend) return nullptr;
 			ch = *pend;
+			continue;
 		}
 		if (str && ch == '"')
 		{
-- 
2.43.0


From 0dc5b7d6c74bc1508303f712a23799d4c0d4a94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:00 +0000
Subject: [PATCH 15/34] fix: non-ASCII characters given as escape sequences in
 requests were garbled

---
 daemon/util/Util.cpp | 69 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 63 insertions(+), 6 deletions(-)

diff --git a/daemon/util/Util.cpp b/daemon/util/Util.cpp
index 29671fb..796f68c 100644
--- a/daemon/util/Util.cpp
+++ b/daemon/util/Util.cpp
@@ -851,6 +851,34 @@ BreakLoop:
 	return result;
 }
 
+// appends unicode character as UTF-8
+static char* AppendUtf8(char* output, uint32 cp)
+{
+	if (cp < 0x80)
+	{
+		*output++ = (char)cp;
+	}
+	else if (cp < 0x800)
+	{
+		*output++ = (char)(0xc0 | (cp >> 6));
+		*output++ = (char)(0x80 | (cp & 0x3f));
+	}
+	else if (cp < 0x10000)
+	{
+		*output++ = (char)(0xe0 | (cp >> 12));
+		*output++ = (char)(0x80 | ((cp >> 6) & 0x3f));
+		*output++ = (char)(0x80 | (cp & 0x3f));
+	}
+	else
+	{
+		*output++ = (char)(0xf0 | ((cp >> 18) & 0x07));
+		*output++ = (char)(0x80 | ((cp >> 12) & 0x3f));
+		*output++ = (char)(0x80 | ((cp >> 6) & 0x3f));
+		*output++ = (char)(0x80 | (cp & 0x3f));
+	}
+	return output;
+}
+
 void WebUtil::XmlDecode(char* raw)
 {
 	char* output = raw;
@@ -890,15 +918,24 @@ void WebUtil::XmlDecode(char* raw)
 					}
 					else if (*p == '#')
 					{
-						int code = atoi((p++)+1);
-						while (strchr("0123456789;", *p)) p++;
-						*output++ = (char)code;
+						char* end;
+						bool hex = p[1] == 'x';
+						uint32 code = (uint32)strtoul(p + (hex ? 2 : 1), &end, hex ? 16 : 10);
+						if (*end == ';' && 0 < code && code <= 0x10ffff)
+						{
+							output = AppendUtf8(output, code);
+							p = end + 1;
+						}
+						else
+						{
+							// invalid entity, keep as is
+							*output++ = '&';
+						}
 					}
 					else
 					{
 						// unknown entity, keep as is
 						*output++ = *(p-1);
-						*output++ = *p++;
 					}
 					break;
 				}
@@ -1163,9 +1200,29 @@ void WebUtil::JsonDecode(char* raw)
 							*output++ = '\t';
 							break;
 						case 'u':
-							*output++ = (char)strtol(p + 1, nullptr, 16);
-							p += 4;
+							{
+								uint32 code = 0;
+								int len = 0;
+								if (sscanf(p + 1, "%4x%n", &code, &len) == 1 && len == 4 && code > 0)
+								{
+									p += 4;
+									uint32 low = 0;
+									if (0xd800 <= code && code <= 0xdbff && p[1] == '\\' && p[2] == 'u' &&
+										sscanf(p + 3, "%4x%n", &low, &len) == 1 && len == 4 && 0xdc00 <= low && low <= 0xdfff)
+									{
+										code = 0x10000 + ((code - 0xd800) << 10) + (low - 0xdc00);
+										p += 6;
+									}
+									output = AppendUtf8(output, code);
+								}
+								else
+								{
+									*output++ = *p;
+								}
+							}
 							break;
+						case '\0':
+							goto BreakLoop;
 						default:
 							// unknown escape-sequence, should never occur
 							*output++ = *p;
-- 
2.43.0


From 916629af38e7941a21ec52e16b9038564a8f9034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:34 +0000
Subject: [PATCH 16/34] fix: long dupe keys and subjects were truncated on
 restart

---
 daemon/queue/DiskState.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index e0f0ca9..6e2869c 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -1102,7 +1102,7 @@ bool DiskState::LoadFile(FileInfo* fileInfo, bool fileSummary, bool articles)
 
 bool DiskState::LoadFileInfo(FileInfo* fileInfo, StateDiskFile& infile, int formatVersion, bool fileSummary, bool articles)
 {
-	char buf[1024];
+	char buf[10240];
 
 	if (!infile.ReadLine(buf, sizeof(buf))) goto error;
 	if (fileSummary) fileInfo->SetSubject(buf);
@@ -1256,7 +1256,7 @@ bool DiskState::LoadFileState(FileInfo* fileInfo, Servers* servers, StateDiskFil
 	fileInfo->SetSuccessSize(Util::JoinInt64(High2, Low2));
 	fileInfo->SetFailedSize(Util::JoinInt64(High3, Low3));
 
-	char buf[1024];
+	char buf[10240];
 
 	if (formatVersion >= 4)
 	{
@@ -1384,7 +1384,7 @@ void DiskState::SaveDupInfo(DupInfo* dupInfo, StateDiskFile& outfile)
 
 bool DiskState::LoadDupInfo(DupInfo* dupInfo, StateDiskFile& infile, int formatVersion)
 {
-	char buf[1024];
+	char buf[10240];
 
 	int status;
 	uint32 High, Low;
-- 
2.43.0


From a6478ddf24eff928cbb7b92bdce09b4892f949fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:34 +0000
Subject: [PATCH 17/34] fix: characters beyond the BMP and stray bytes were not
 returned correctly in responses

---
 daemon/util/Util.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/daemon/util/Util.cpp b/daemon/util/Util.cpp
index 796f68c..a7ff142 100644
--- a/daemon/util/Util.cpp
+++ b/daemon/util/Util.cpp
@@ -792,7 +792,7 @@ CString WebUtil::XmlEncode(const char* raw)
 				output += 6;
 				break;
 			default:
-				if (ch < 0x20 || ch > 0x80)
+				if (ch < 0x20 || ch >= 0x80)
 				{
 					uint32 cp = ch;
 
@@ -1113,7 +1113,7 @@ CString WebUtil::JsonEncode(const char* raw)
 				output += 2;
 				break;
 			default:
-				if (ch < 0x20 || ch > 0x80)
+				if (ch < 0x20 || ch >= 0x80)
 				{
 					uint32 cp = ch;
 
@@ -1143,8 +1143,15 @@ CString WebUtil::JsonEncode(const char* raw)
 						cp += ch & 0x3f;
 					}
 
-					// we support only Unicode range U+0000-U+FFFF
-					sprintf(output, "\\u%04x", cp <= 0xFFFF ? cp : '.');
+					if (cp > 0xFFFF)
+					{
+						// surrogate pair
+						cp = cp <= 0x10FFFF ? cp - 0x10000 : 0;
+						sprintf(output, "\\u%04x", 0xD800 + (cp >> 10));
+						output += 6;
+						cp = 0xDC00 + (cp & 0x3ff);
+					}
+					sprintf(output, "\\u%04x", cp);
 					output += 6;
 				}
 				else
-- 
2.43.0


From c46cc90ba8dc4a3cce8bfaeac8312929a657351c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:34 +0000
Subject: [PATCH 18/34] fix: incomplete escape sequences in requests were read
 beyond the end of the string

---
 daemon/util/Util.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/daemon/util/Util.cpp b/daemon/util/Util.cpp
index a7ff142..8a0a1be 100644
--- a/daemon/util/Util.cpp
+++ b/daemon/util/Util.cpp
@@ -1316,7 +1316,10 @@ void WebUtil::HttpUnquote(char* raw)
 				goto BreakLoop;
 			case '\\':
 				p++;
-				*output++ = *p;
+				if (*p)
+				{
+					*output++ = *p++;
+				}
 				break;
 			default:
 				*output++ = *p++;
@@ -1338,6 +1341,12 @@ void WebUtil::UrlDecode(char* raw)
 			case '\0':
 				goto BreakLoop;
 			case '%':
+				if (!p[1] || !p[2])
+				{
+					// incomplete sequence
+					*output++ = *p++;
+					break;
+				}
 				{
 					p++;
 					uchar c1 = *p++;
-- 
2.43.0


From 0edf3bf73f37b79936b1cc81249ad3d5a960c51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:34 +0000
Subject: [PATCH 19/34] fix: escape sequences in parameters of method append
 were not decoded

---
 daemon/remote/XmlRpc.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/daemon/remote/XmlRpc.cpp b/daemon/remote/XmlRpc.cpp
index 630872b..c651455 100644
--- a/daemon/remote/XmlRpc.cpp
+++ b/daemon/remote/XmlRpc.cpp
@@ -2240,6 +2240,8 @@ void DownloadXmlCommand::Execute()
 				BuildErrorResponse(2, "Invalid parameter (Parameters)");
 				return;
 			}
+			DecodeStr(paramName);
+			DecodeStr(paramValue);
 			Params.SetParameter(paramName, paramValue);
 		}
 	}
-- 
2.43.0


From 93635c87706a96be3d247d02dd47010b8ed6c12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:34 +0000
Subject: [PATCH 20/34] fix: listgroups returned garbage in PostStageProgress

---
 daemon/remote/XmlRpc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/remote/XmlRpc.cpp b/daemon/remote/XmlRpc.cpp
index c651455..af877b5 100644
--- a/daemon/remote/XmlRpc.cpp
+++ b/daemon/remote/XmlRpc.cpp
@@ -1867,7 +1867,7 @@ void NzbInfoXmlCommand::AppendPostInfoFields(PostInfo* postInfo, int logEntries,
 	}
 	else
 	{
-		AppendFmtResponse(itemStart, "NONE", "", 0, 0, 0, 0);
+		AppendFmtResponse(itemStart, "NONE", 0, 0, 0);
 	}
 
 	AppendResponse(IsJson() ? JSON_LOG_START : XML_LOG_START);
-- 
2.43.0


From a1a020a518a96a2b7102be51b3ba2baaf60e4dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:34 +0000
Subject: [PATCH 21/34] fix: invalid JSON from servervolumes when some of the
 arrays were not requested

---
 daemon/remote/XmlRpc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/daemon/remote/XmlRpc.cpp b/daemon/remote/XmlRpc.cpp
index af877b5..fd262d5 100644
--- a/daemon/remote/XmlRpc.cpp
+++ b/daemon/remote/XmlRpc.cpp
@@ -3137,7 +3137,7 @@ void ServerVolumesXmlCommand::Execute()
 	"\"SecSlot\" : %i,\n"
 	"\"MinSlot\" : %i,\n"
 	"\"HourSlot\" : %i,\n"
-	"\"DaySlot\" : %i,\n";
+	"\"DaySlot\" : %i";
 
 	const char* JSON_BYTES_ARRAY_START =
 	"\"%s\" : [\n";
@@ -3191,6 +3191,7 @@ void ServerVolumesXmlCommand::Execute()
 				ServerVolume::VolumeArray* volumeArray = VolumeArrays[i];
 				const char* arrayName = VolumeNames[i];
 
+				AppendCondResponse(",\n", IsJson());
 				AppendFmtResponse(IsJson() ? JSON_BYTES_ARRAY_START : XML_BYTES_ARRAY_START, arrayName);
 
 				int index2 = 0;
@@ -3206,7 +3207,6 @@ void ServerVolumesXmlCommand::Execute()
 				}
 
 				AppendResponse(IsJson() ? JSON_BYTES_ARRAY_END : XML_BYTES_ARRAY_END);
-				AppendCondResponse(",\n", IsJson() && i < 3);
 			}
 		}
 		AppendResponse(IsJson() ? JSON_VOLUME_ITEM_END : XML_VOLUME_ITEM_END);
-- 
2.43.0


From 2e385b7c24ac87078fd61f845b3e9a04c33958e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:12 +0000
Subject: [PATCH 22/34] fix: FileSplit accepted empty names and names leading
 outside of the intermediate directory

---
 daemon/queue/QueueCoordinator.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/daemon/queue/QueueCoordinator.cpp b/daemon/queue/QueueCoordinator.cpp
index dd97365..f354a6e 100644
--- a/daemon/queue/QueueCoordinator.cpp
+++ b/daemon/queue/QueueCoordinator.cpp
@@ -1241,6 +1241,12 @@ bool QueueCoordinator::SplitQueueEntries(DownloadQueue* downloadQueue, RawFileLi
 		return false;
 	}
 
+	if (Util::EmptyStr(name))
+	{
+		error("Could not split %s. The new name cannot be empty", fileList->front()->GetFilename());
+		return false;
+	}
+
 	NzbInfo* srcNzbInfo = nullptr;
 
 	for (FileInfo* fileInfo : fileList)
@@ -1269,7 +1275,7 @@ bool QueueCoordinator::SplitQueueEntries(DownloadQueue* downloadQueue, RawFileLi
 	std::unique_ptr<NzbInfo> nzbInfo = std::make_unique<NzbInfo>();
 
 	nzbInfo->SetFilename(srcNzbInfo->GetFilename());
-	nzbInfo->SetName(name);
+	nzbInfo->SetName(NzbInfo::MakeNiceNzbName(name, false));
 	nzbInfo->SetCategory(srcNzbInfo->GetCategory());
 	nzbInfo->SetFullContentHash(0);
 	nzbInfo->SetFilteredContentHash(0);
-- 
2.43.0


From 3b8aec63ee9bfda63ea79908a1517f88dbabd907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:12 +0000
Subject: [PATCH 23/34] fix: renamed history items could leave the intermediate
 directory when downloaded again

---
 daemon/queue/HistoryCoordinator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/queue/HistoryCoordinator.cpp b/daemon/queue/HistoryCoordinator.cpp
index 1aa49a2..f8b7203 100644
--- a/daemon/queue/HistoryCoordinator.cpp
+++ b/daemon/queue/HistoryCoordinator.cpp
@@ -769,7 +769,7 @@ bool HistoryCoordinator::HistorySetName(HistoryInfo* historyInfo, const char* te
 
 	if (historyInfo->GetKind() == HistoryInfo::hkNzb || historyInfo->GetKind() == HistoryInfo::hkUrl)
 	{
-		historyInfo->GetNzbInfo()->SetName(text);
+		historyInfo->GetNzbInfo()->SetName(NzbInfo::MakeNiceNzbName(text, false));
 	}
 	else if (historyInfo->GetKind() == HistoryInfo::hkDup)
 	{
-- 
2.43.0


From ea8dadc07264ad9a91b5126cf0c672e045fcdb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:45 +0000
Subject: [PATCH 24/34] fix: loading of an empty configuration file never ended

---
 daemon/extension/ScriptConfig.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/extension/ScriptConfig.cpp b/daemon/extension/ScriptConfig.cpp
index bd51af2..0a9a609 100644
--- a/daemon/extension/ScriptConfig.cpp
+++ b/daemon/extension/ScriptConfig.cpp
@@ -53,7 +53,7 @@ bool ScriptConfig::LoadConfig(Options::OptEntries* optEntries)
 		return false;
 	}
 
-	int fileLen = (int)FileSystem::FileSize(g_Options->GetConfigFilename());
+	int fileLen = (int)FileSystem::FileSize(g_Options->GetConfigFilename()) + 1;
 	CString buf;
 	buf.Reserve(fileLen);
 
-- 
2.43.0


From 2136c3a7d5f822f7fbfe4861cd1fe7aa3ca9f914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:54 +0000
Subject: [PATCH 25/34] fix: saveconfig without options erased the whole
 configuration

---
 daemon/remote/XmlRpc.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/daemon/remote/XmlRpc.cpp b/daemon/remote/XmlRpc.cpp
index fd262d5..6bc33b3 100644
--- a/daemon/remote/XmlRpc.cpp
+++ b/daemon/remote/XmlRpc.cpp
@@ -2689,6 +2689,13 @@ void SaveConfigXmlCommand::Execute()
 		optEntries.emplace_back(name, value);
 	}
 
+	if (optEntries.empty())
+	{
+		// saving nothing would erase the whole configuration
+		BuildErrorResponse(2, "Invalid parameter");
+		return;
+	}
+
 	// save to config file
 	bool ok = g_ScriptConfig->SaveConfig(&optEntries);
 
-- 
2.43.0


From dac16847f76e4c812c71ede602b28f6d159ee3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:32 +0000
Subject: [PATCH 26/34] fix: collections completed during shutdown stayed in
 the queue forever

---
 daemon/extension/QueueScript.cpp        |  2 +-
 daemon/postprocess/PrePostProcessor.cpp | 12 ++++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/daemon/extension/QueueScript.cpp b/daemon/extension/QueueScript.cpp
index ce3d590..6ea6d15 100644
--- a/daemon/extension/QueueScript.cpp
+++ b/daemon/extension/QueueScript.cpp
@@ -260,7 +260,7 @@ void QueueScriptCoordinator::InitOptions()
 
 void QueueScriptCoordinator::EnqueueScript(NzbInfo* nzbInfo, EEvent event)
 {
-	if (!m_hasQueueScripts)
+	if (!m_hasQueueScripts || m_stopped)
 	{
 		return;
 	}
diff --git a/daemon/postprocess/PrePostProcessor.cpp b/daemon/postprocess/PrePostProcessor.cpp
index 756ef05..d093425 100644
--- a/daemon/postprocess/PrePostProcessor.cpp
+++ b/daemon/postprocess/PrePostProcessor.cpp
@@ -211,12 +211,16 @@ void PrePostProcessor::SanitisePostQueue()
 
 void PrePostProcessor::DownloadQueueUpdate(void* aspect)
 {
-	if (IsStopped())
+	DownloadQueue::Aspect* queueAspect = (DownloadQueue::Aspect*)aspect;
+
+	// collections whose last file is completed or deleted during shutdown must not stay in the queue
+	bool stopped = IsStopped();
+	if (stopped && queueAspect->action != DownloadQueue::eaFileCompleted &&
+		queueAspect->action != DownloadQueue::eaFileDeleted)
 	{
 		return;
 	}
 
-	DownloadQueue::Aspect* queueAspect = (DownloadQueue::Aspect*)aspect;
 	if (queueAspect->action == DownloadQueue::eaNzbFound ||
 		queueAspect->action == DownloadQueue::eaUrlFound)
 	{
@@ -253,7 +257,7 @@ void PrePostProcessor::DownloadQueueUpdate(void* aspect)
 	else if ((queueAspect->action == DownloadQueue::eaFileCompleted ||
 		queueAspect->action == DownloadQueue::eaFileDeleted))
 	{
-		if (queueAspect->action == DownloadQueue::eaFileCompleted)
+		if (queueAspect->action == DownloadQueue::eaFileCompleted && !stopped)
 		{
 			FileDownloaded(queueAspect->downloadQueue, queueAspect->nzbInfo, queueAspect->fileInfo);
 		}
@@ -261,7 +265,7 @@ void PrePostProcessor::DownloadQueueUpdate(void* aspect)
 #ifndef DISABLE_PARCHECK
 		for (NzbInfo* postJob : m_activeJobs)
 		{
-			if (postJob && queueAspect->fileInfo->GetNzbInfo() == postJob &&
+			if (!stopped && postJob && queueAspect->fileInfo->GetNzbInfo() == postJob &&
 				postJob->GetPostInfo() && postJob->GetPostInfo()->GetPostThread() &&
 				postJob->GetPostInfo()->GetStage() >= PostInfo::ptLoadingPars &&
 				postJob->GetPostInfo()->GetStage() <= PostInfo::ptVerifyingRepaired &&
-- 
2.43.0


From e87a148a1e81012022e24fae7b389bc383880893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:32 +0000
Subject: [PATCH 27/34] fix: uuencoded articles were saved without being
 decoded

---
 daemon/nntp/ArticleDownloader.cpp |  4 +++-
 daemon/nntp/Decoder.cpp           | 11 ++++++++---
 daemon/nntp/Decoder.h             |  2 +-
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/daemon/nntp/ArticleDownloader.cpp b/daemon/nntp/ArticleDownloader.cpp
index 5e60471..6739812 100644
--- a/daemon/nntp/ArticleDownloader.cpp
+++ b/daemon/nntp/ArticleDownloader.cpp
@@ -351,10 +351,12 @@ ArticleDownloader::EStatus ArticleDownloader::Download()
 		char* buffer;
 		int len;
 		m_connection->ReadBuffer(&buffer, &len);
+		int bufSize = len;
 		if (len == 0)
 		{
 			len = m_connection->TryRecv(lineBuf, lineBuf.Size());
 			buffer = lineBuf;
+			bufSize = lineBuf.Size();
 		}
 
 		// have we encountered a timeout?
@@ -377,7 +379,7 @@ ArticleDownloader::EStatus ArticleDownloader::Download()
 		}
 
 		// decode article data
-		len = m_decoder.DecodeBuffer(buffer, len);
+		len = m_decoder.DecodeBuffer(buffer, len, bufSize);
 
 		// write to output file
 		if (len > 0 && !Write(buffer, len))
diff --git a/daemon/nntp/Decoder.cpp b/daemon/nntp/Decoder.cpp
index 54e5e00..76eb7a3 100644
--- a/daemon/nntp/Decoder.cpp
+++ b/daemon/nntp/Decoder.cpp
@@ -60,7 +60,7 @@ void Decoder::Clear()
  * process '=yend'-marker and EOF-marker.
  * UU-encoded articles are processed completely in line by line mode.
  */
-int Decoder::DecodeBuffer(char* buffer, int len)
+int Decoder::DecodeBuffer(char* buffer, int len, int size)
 {
 	if (m_rawMode)
 	{
@@ -117,7 +117,12 @@ int Decoder::DecodeBuffer(char* buffer, int len)
 		}
 		else if (m_format == efUx)
 		{
-			outlen += DecodeUx(line, llen);
+			// remove dot-stuffing
+			int dot = line[0] == '.' && line[1] == '.' ? 1 : 0;
+			// decoded data is put at the beginning of the line
+			int ulen = std::min(DecodeUx(line + dot, llen - dot), size - outlen);
+			memcpy(buffer + outlen, line + dot, ulen);
+			outlen += ulen;
 		}
 
 		line = end + 1;
@@ -348,7 +353,7 @@ int Decoder::DecodeUx(char* buffer, int len)
 		}
 	}
 
-	if (m_body && (!strncmp(buffer, "end ", 4) || *buffer == '`'))
+	if (m_body && (!strncmp(buffer, "end", 3) || *buffer == '`'))
 	{
 		m_end = true;
 	}
diff --git a/daemon/nntp/Decoder.h b/daemon/nntp/Decoder.h
index ba8ac7e..16b3de7 100644
--- a/daemon/nntp/Decoder.h
+++ b/daemon/nntp/Decoder.h
@@ -47,7 +47,7 @@ public:
 	Decoder();
 	EStatus Check();
 	void Clear();
-	int DecodeBuffer(char* buffer, int len);
+	int DecodeBuffer(char* buffer, int len, int size);
 	void SetCrcCheck(bool crcCheck) { m_crcCheck = crcCheck; }
 	void SetRawMode(bool rawMode) { m_rawMode = rawMode; }
 	EFormat GetFormat() { return m_format; }
-- 
2.43.0


From 9abc9d0cd2e2bcd96e333b3d120f740c76011624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:32 +0000
Subject: [PATCH 28/34] fix: parts of uuencoded files overwrote each other when
 article cache was used

---
 daemon/nntp/ArticleWriter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/daemon/nntp/ArticleWriter.cpp b/daemon/nntp/ArticleWriter.cpp
index 4d88478..83c13cb 100644
--- a/daemon/nntp/ArticleWriter.cpp
+++ b/daemon/nntp/ArticleWriter.cpp
@@ -436,7 +436,11 @@ void ArticleWriter::CompleteFileParts()
 			{
 				if (!g_Options->GetSkipWrite())
 				{
-					outfile.Seek(pa->GetSegmentOffset());
+					if (directWrite)
+					{
+						// when joining, the parts follow each other (uuencoded parts have no offsets)
+						outfile.Seek(pa->GetSegmentOffset());
+					}
 					outfile.Write(pa->GetSegmentContent(), pa->GetSegmentSize());
 				}
 				pa->DiscardSegment();
-- 
2.43.0


From dc5e0563866dc2e2834509d1c9b8a4b2cecda690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:32 +0000
Subject: [PATCH 29/34] fix: file completed while its collection was renamed or
 moved stayed in the old directory

---
 daemon/nntp/ArticleWriter.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/daemon/nntp/ArticleWriter.cpp b/daemon/nntp/ArticleWriter.cpp
index 83c13cb..62ffab8 100644
--- a/daemon/nntp/ArticleWriter.cpp
+++ b/daemon/nntp/ArticleWriter.cpp
@@ -574,8 +574,22 @@ void ArticleWriter::CompleteFileParts()
 
 		if (strcmp(m_fileInfo->GetNzbInfo()->GetDestDir(), nzbDestDir))
 		{
-			// destination directory was changed during completion, need to move the file
-			MoveCompletedFiles(m_fileInfo->GetNzbInfo(), nzbDestDir);
+			// destination directory was changed during completion, need to move the file;
+			// it is not listed among completed files yet
+			const char* newDestDir = m_fileInfo->GetNzbInfo()->GetDestDir();
+			ofn = FileSystem::MakeUniqueFilename(newDestDir, FileSystem::BaseFileName(m_fileInfo->GetOutputFilename()));
+			if (!FileSystem::ForceDirectories(newDestDir, errmsg) ||
+				!FileSystem::MoveFile(m_fileInfo->GetOutputFilename(), ofn))
+			{
+				m_fileInfo->GetNzbInfo()->PrintMessage(Message::mkError,
+					"Could not move file %s to %s: %s", m_fileInfo->GetOutputFilename(),
+					*ofn, *FileSystem::GetLastErrorMessage());
+			}
+			m_fileInfo->SetOutputFilename(ofn);
+			if (FileSystem::DirEmpty(nzbDestDir))
+			{
+				FileSystem::RemoveDirectory(nzbDestDir);
+			}
 		}
 	}
 }
-- 
2.43.0


From 826bc73cc0059a811994e1c23cc5419a4d49c90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:55 +0000
Subject: [PATCH 30/34] fix: completed file which got an unique name when moved
 could not be moved again

---
 daemon/nntp/ArticleWriter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/daemon/nntp/ArticleWriter.cpp b/daemon/nntp/ArticleWriter.cpp
index 62ffab8..0a186bc 100644
--- a/daemon/nntp/ArticleWriter.cpp
+++ b/daemon/nntp/ArticleWriter.cpp
@@ -750,6 +750,10 @@ bool ArticleWriter::MoveCompletedFiles(NzbInfo* nzbInfo, const char* oldDestDir)
 				nzbInfo->PrintMessage(Message::mkError, "Could not move file %s to %s: %s",
 					*oldFileName, *newFileName, *FileSystem::GetLastErrorMessage());
 			}
+			else
+			{
+				completedFile.SetFilename(FileSystem::BaseFileName(newFileName));
+			}
 		}
 	}
 
-- 
2.43.0


From 9a4b7ddbe974d6b4aeb3d151db35b4c2adb6feb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:27 +0000
Subject: [PATCH 31/34] fix: downloaded parts of uuencoded files were lost over
 a restart when direct write was used

---
 daemon/queue/DiskState.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/daemon/queue/DiskState.cpp b/daemon/queue/DiskState.cpp
index 6e2869c..935d4ea 100644
--- a/daemon/queue/DiskState.cpp
+++ b/daemon/queue/DiskState.cpp
@@ -1316,8 +1316,8 @@ bool DiskState::LoadFileState(FileInfo* fileInfo, Servers* servers, StateDiskFil
 			status = ArticleInfo::aiUndefined;
 		}
 
-		if (status == ArticleInfo::aiFinished && !g_Options->GetDirectWrite() &&
-			!fileInfo->GetForceDirectWrite() && !pa->GetResultFilename())
+		// uuencoded articles are kept in temporary files even in direct write mode
+		if (status == ArticleInfo::aiFinished && !pa->GetResultFilename())
 		{
 			pa->SetResultFilename(BString<1024>("%s%c%i.%03i", g_Options->GetTempDir(),
 				PATH_SEPARATOR, fileInfo->GetId(), pa->GetPartNumber()));
-- 
2.43.0


From 8a2e2bee5805f19387fe04328d8f79c8dfe32fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:09 +0000
Subject: [PATCH 32/34] fix: data of partially downloaded files was lost if the
 collection was renamed before restart (direct write)

---
 daemon/nntp/ArticleWriter.cpp     | 34 ++++++++++++++++++++-
 daemon/queue/QueueCoordinator.cpp | 50 +++++++++++++++++++++++++++++++
 daemon/queue/QueueCoordinator.h   |  1 +
 3 files changed, 84 insertions(+), 1 deletion(-)

diff --git a/daemon/nntp/ArticleWriter.cpp b/daemon/nntp/ArticleWriter.cpp
index 0a186bc..ec30edf 100644
--- a/daemon/nntp/ArticleWriter.cpp
+++ b/daemon/nntp/ArticleWriter.cpp
@@ -719,7 +719,27 @@ void ArticleWriter::FlushCache()
 
 bool ArticleWriter::MoveCompletedFiles(NzbInfo* nzbInfo, const char* oldDestDir)
 {
-	if (nzbInfo->GetCompletedFiles()->empty())
+	// partially downloaded files (direct write mode) whose download was not continued yet in this
+	// program session are moved too; the others remember their location
+	std::vector<CString> partialFiles;
+	for (FileInfo* fileInfo : nzbInfo->GetFileList())
+	{
+		if (Util::EmptyStr(fileInfo->GetOutputFilename()))
+		{
+			BString<1024> filename("%i.out.tmp", fileInfo->GetId());
+			if (fileInfo->GetPartialState() == FileInfo::psCompleted)
+			{
+				filename = fileInfo->GetFilename();
+			}
+			if ((g_Options->GetDirectWrite() || fileInfo->GetPartialState() == FileInfo::psCompleted) &&
+				FileSystem::FileExists(BString<1024>("%s%c%s", oldDestDir, PATH_SEPARATOR, *filename)))
+			{
+				partialFiles.emplace_back(*filename);
+			}
+		}
+	}
+
+	if (nzbInfo->GetCompletedFiles()->empty() && partialFiles.empty())
 	{
 		return true;
 	}
@@ -757,6 +777,18 @@ bool ArticleWriter::MoveCompletedFiles(NzbInfo* nzbInfo, const char* oldDestDir)
 		}
 	}
 
+	for (CString& filename : partialFiles)
+	{
+		BString<1024> oldFileName("%s%c%s", oldDestDir, PATH_SEPARATOR, *filename);
+		BString<1024> newFileName("%s%c%s", nzbInfo->GetDestDir(), PATH_SEPARATOR, *filename);
+		if (strcmp(oldFileName, newFileName) &&
+			(FileSystem::FileExists(newFileName) || !FileSystem::MoveFile(oldFileName, newFileName)))
+		{
+			nzbInfo->PrintMessage(Message::mkError, "Could not move file %s to %s: %s",
+				*oldFileName, *newFileName, *FileSystem::GetLastErrorMessage());
+		}
+	}
+
 	// delete old directory (if empty)
 	if (FileSystem::DirEmpty(oldDestDir))
 	{
diff --git a/daemon/queue/QueueCoordinator.cpp b/daemon/queue/QueueCoordinator.cpp
index f354a6e..66a1c14 100644
--- a/daemon/queue/QueueCoordinator.cpp
+++ b/daemon/queue/QueueCoordinator.cpp
@@ -285,6 +285,7 @@ void QueueCoordinator::Run()
 	}
 
 	WaitJobs();
+	MovePartialFiles();
 	SaveAllPartialState();
 	SaveQueueIfChanged();
 	SaveAllFileState();
@@ -986,6 +987,55 @@ void QueueCoordinator::LoadPartialState(FileInfo* fileInfo)
 	}
 }
 
+/*
+ * If destination directory of a collection was changed the partially downloaded files
+ * remain in the old directory (direct write mode). They have to be moved before exit
+ * because after restart they are expected in the current destination directory.
+ */
+void QueueCoordinator::MovePartialFiles()
+{
+	if (!g_Options->GetDirectWrite())
+	{
+		return;
+	}
+
+	GuardedDownloadQueue downloadQueue = DownloadQueue::Guard();
+	for (NzbInfo* nzbInfo : downloadQueue->GetQueue())
+	{
+		for (FileInfo* fileInfo : nzbInfo->GetFileList())
+		{
+			ArticleCache::FlushGuard flushGuard = g_ArticleCache->GuardFlush();
+
+			BString<1024> newFilename("%s%c%i.out.tmp", nzbInfo->GetDestDir(), PATH_SEPARATOR, fileInfo->GetId());
+			if (!fileInfo->GetOutputInitialized() || Util::EmptyStr(fileInfo->GetOutputFilename()) ||
+				fileInfo->GetForceDirectWrite() || !strcmp(fileInfo->GetOutputFilename(), newFilename))
+			{
+				continue;
+			}
+
+			BString<1024> oldDir;
+			oldDir.Set(fileInfo->GetOutputFilename(),
+				(int)(FileSystem::BaseFileName(fileInfo->GetOutputFilename()) - fileInfo->GetOutputFilename()));
+
+			CString errmsg;
+			if (FileSystem::ForceDirectories(nzbInfo->GetDestDir(), errmsg) &&
+				FileSystem::MoveFile(fileInfo->GetOutputFilename(), newFilename))
+			{
+				fileInfo->SetOutputFilename(newFilename);
+				if (FileSystem::DirEmpty(oldDir))
+				{
+					FileSystem::RemoveDirectory(oldDir);
+				}
+			}
+			else
+			{
+				nzbInfo->PrintMessage(Message::mkError, "Could not move file %s to %s: %s",
+					fileInfo->GetOutputFilename(), *newFilename, *FileSystem::GetLastErrorMessage());
+			}
+		}
+	}
+}
+
 void QueueCoordinator::SaveAllFileState()
 {
 	if (g_Options->GetServerMode() && m_downloadQueue.m_stateChanged)
diff --git a/daemon/queue/QueueCoordinator.h b/daemon/queue/QueueCoordinator.h
index cc99196..9ef0528 100644
--- a/daemon/queue/QueueCoordinator.h
+++ b/daemon/queue/QueueCoordinator.h
@@ -116,6 +116,7 @@ private:
 	void SavePartialState(FileInfo* fileInfo);
 	void LoadPartialState(FileInfo* fileInfo);
 	void SaveAllFileState();
+	void MovePartialFiles();
 	void WaitJobs();
 	void WakeUp();
 };
-- 
2.43.0


From a98348190c8a48c3d8bd4fb25bf52bfcbe3919db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:26 +0000
Subject: [PATCH 33/34] fix: parking a collection without remaining files left
 it in queue forever

---
 daemon/queue/QueueEditor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/daemon/queue/QueueEditor.cpp b/daemon/queue/QueueEditor.cpp
index fd646a6..dab9d37 100644
--- a/daemon/queue/QueueEditor.cpp
+++ b/daemon/queue/QueueEditor.cpp
@@ -784,7 +784,8 @@ bool QueueEditor::EditGroup(NzbInfo* nzbInfo, DownloadQueue::EEditAction action,
 
 	bool ok = InternEditList(&itemList, nullptr, GroupToFileMap[action], args);
 
-	if ((action == DownloadQueue::eaGroupDelete || action == DownloadQueue::eaGroupDupeDelete || action == DownloadQueue::eaGroupFinalDelete) &&
+	if ((action == DownloadQueue::eaGroupDelete || action == DownloadQueue::eaGroupParkDelete ||
+		 action == DownloadQueue::eaGroupDupeDelete || action == DownloadQueue::eaGroupFinalDelete) &&
 		// NZBInfo could have been destroyed already
 		m_downloadQueue->GetQueue()->Find(id))
 	{
-- 
2.43.0


From 307870646dd98a000b598a2f66e0c51f11da7377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:26 +0000
Subject: [PATCH 34/34] fix: failed downloads were treated as successful by
 duplicate check if unpack was disabled

---
 daemon/queue/DownloadInfo.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/daemon/queue/DownloadInfo.cpp b/daemon/queue/DownloadInfo.cpp
index a1e3ed5..0077b80 100644
--- a/daemon/queue/DownloadInfo.cpp
+++ b/daemon/queue/DownloadInfo.cpp
@@ -502,8 +502,8 @@ bool NzbInfo::IsDupeSuccess()
 		m_urlStatus == NzbInfo::lsFailed ||
 		m_urlStatus == NzbInfo::lsScanSkipped ||
 		m_urlStatus == NzbInfo::lsScanFailed ||
-		(m_parStatus == NzbInfo::psSkipped &&
-		 m_unpackStatus == NzbInfo::usSkipped &&
+		(m_parStatus <= NzbInfo::psSkipped &&
+		 m_unpackStatus <= NzbInfo::usSkipped &&
 		 CalcHealth() < CalcCriticalHealth(true)));
 	return !failure;
 }
-- 
2.43.0

