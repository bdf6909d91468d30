From 6514f7ae87120d4f4cf26fbedf32c0c7dfb44d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:47 +0000
Subject: [PATCH 01/84] fix: store every exception raised inside TLS transport
 callbacks

Only vmime exceptions were caught: anything else (e.g. one raised by an
application-supplied socket or timeout handler) unwound through C frames of
GnuTLS/OpenSSL.
---
 src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp   | 4 ++--
 src/vmime/net/tls/openssl/TLSSocket_OpenSSL.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp b/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp
index 97466fc..54fbdaf 100644
--- a/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp
+++ b/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp
@@ -403,7 +403,7 @@ ssize_t TLSSocket_GnuTLS::gnutlsPushFunc(
 
 		return ret;
 
-	} catch (exception& e) {
+	} catch (...) {
 
 		// Workaround for non-portable behaviour when throwing C++ exceptions
 		// from C functions (GNU TLS)
@@ -436,7 +436,7 @@ ssize_t TLSSocket_GnuTLS::gnutlsPullFunc(
 
 		return n;
 
-	} catch (exception& e) {
+	} catch (...) {
 
 		// Workaround for non-portable behaviour when throwing C++ exceptions
 		// from C functions (GNU TLS)
diff --git a/src/vmime/net/tls/openssl/TLSSocket_OpenSSL.cpp b/src/vmime/net/tls/openssl/TLSSocket_OpenSSL.cpp
index bbda81b..8bc3593 100644
--- a/src/vmime/net/tls/openssl/TLSSocket_OpenSSL.cpp
+++ b/src/vmime/net/tls/openssl/TLSSocket_OpenSSL.cpp
@@ -627,7 +627,7 @@ int TLSSocket_OpenSSL::bio_write(BIO* bio, const char* buf, int len) {
 
 		return static_cast <int>(n);
 
-	} catch (exception& e) {
+	} catch (...) {
 
 		// Workaround for passing C++ exceptions from C BIO functions
 		sok->m_ex = std::current_exception();
@@ -664,7 +664,7 @@ int TLSSocket_OpenSSL::bio_read(BIO* bio, char* buf, int len) {
 
 		return static_cast <int>(n);
 
-	} catch (exception& e) {
+	} catch (...) {
 
 		// Workaround for passing C++ exceptions from C BIO functions
 		sok->m_ex = std::current_exception();
-- 
2.43.0


From 7f8ac0a0feebd7033fb50a5f77918757fe4f7d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:47 +0000
Subject: [PATCH 02/84] fix: do not throw from destructors of POSIX file
 iterator/input stream

---
 src/vmime/platforms/posix/posixFile.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/vmime/platforms/posix/posixFile.cpp b/src/vmime/platforms/posix/posixFile.cpp
index 9773b3a..d53719e 100644
--- a/src/vmime/platforms/posix/posixFile.cpp
+++ b/src/vmime/platforms/posix/posixFile.cpp
@@ -73,10 +73,7 @@ posixFileIterator::posixFileIterator(
 posixFileIterator::~posixFileIterator() {
 
 	if (m_dir) {
-
-		if (::closedir(m_dir) == -1) {
-			posixFileSystemFactory::reportError(m_path, errno);
-		}
+		::closedir(m_dir);
 	}
 }
 
@@ -200,9 +197,7 @@ posixFileReaderInputStream::posixFileReaderInputStream(
 
 posixFileReaderInputStream::~posixFileReaderInputStream() {
 
-	if (::close(m_fd) == -1) {
-		posixFileSystemFactory::reportError(m_path, errno);
-	}
+	::close(m_fd);
 }
 
 
-- 
2.43.0


From 7d09c2c01ae00300e3585d9c791e9b536afb8c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:17 +0000
Subject: [PATCH 03/84] fix: IMAP folder checks its state before changing flags
 or searching

---
 src/vmime/net/imap/IMAPFolder.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 34da36d..de0a840 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -1071,6 +1071,16 @@ void IMAPFolder::setMessageFlags(
 	const int mode
 ) {
 
+	shared_ptr <IMAPStore> store = m_store.lock();
+
+	if (!store) {
+		throw exceptions::illegal_state("Store disconnected");
+	} else if (!isOpen()) {
+		throw exceptions::illegal_state("Folder not open");
+	} else if (m_mode == MODE_READ_ONLY) {
+		throw exceptions::illegal_state("Folder is read-only");
+	}
+
 	const std::vector <string> flagList = IMAPUtils::messageFlagList(flags);
 
 	if ((mode == message::FLAG_MODE_SET) || !flagList.empty()) {
@@ -1453,6 +1463,10 @@ void IMAPFolder::noop() {
 
 std::vector <size_t> IMAPFolder::getMessageNumbersStartingOnUID(const message::uid& uid) {
 
+	if (!isOpen()) {
+		throw exceptions::illegal_state("Folder not open");
+	}
+
 	// Send the request
 	std::ostringstream uidSearchKey;
 	uidSearchKey.imbue(std::locale::classic());
@@ -1507,6 +1521,10 @@ std::vector <size_t> IMAPFolder::getMessageNumbersMatchingSearchAttributes(
 	const vmime::charset* charset
 ) {
 
+	if (!isOpen()) {
+		throw exceptions::illegal_state("Folder not open");
+	}
+
 	auto searchKeys = sa.generate();
 
 	IMAPCommand::SEARCH(searchKeys, charset)->send(m_connection);
@@ -1555,6 +1573,10 @@ std::vector <message::uid> IMAPFolder::getMessageUIDsMatchingSearchAttributes(
 	const vmime::charset* charset
 ) {
 
+	if (!isOpen()) {
+		throw exceptions::illegal_state("Folder not open");
+	}
+
 	auto searchKeys = sa.generate();
 
 	IMAPCommand::UIDSEARCH(searchKeys, charset)->send(m_connection);
-- 
2.43.0


From f99630df46a0adc362f56bf0089bb14334cbd1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:17 +0000
Subject: [PATCH 04/84] fix: POP3 folder opened read-only refuses to delete
 messages

---
 src/vmime/net/pop3/POP3Folder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vmime/net/pop3/POP3Folder.cpp b/src/vmime/net/pop3/POP3Folder.cpp
index b69a483..c858409 100644
--- a/src/vmime/net/pop3/POP3Folder.cpp
+++ b/src/vmime/net/pop3/POP3Folder.cpp
@@ -612,6 +612,8 @@ void POP3Folder::deleteMessages(const messageSet& msgs) {
 		throw exceptions::illegal_state("Store disconnected");
 	} else if (!isOpen()) {
 		throw exceptions::illegal_state("Folder not open");
+	} else if (m_mode == MODE_READ_ONLY) {
+		throw exceptions::illegal_state("Folder is read-only");
 	}
 
 	for (std::vector <size_t>::const_iterator
-- 
2.43.0


From 0edf1f84735e32b9964fc21ff087ff5fe28c3cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:17 +0000
Subject: [PATCH 05/84] fix: maildir folder checks its state in exists(),
 getStatus() and getMessageCount()

---
 src/vmime/net/maildir/maildirFolder.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 4485767..9ba0ff9 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -274,6 +274,10 @@ bool maildirFolder::exists() {
 
 	shared_ptr <maildirStore> store = m_store.lock();
 
+	if (!store) {
+		throw exceptions::illegal_state("Store disconnected");
+	}
+
 	return store->getFormat()->folderExists(m_path);
 }
 
@@ -478,6 +482,10 @@ std::vector <shared_ptr <message> > maildirFolder::getMessages(const messageSet&
 
 size_t maildirFolder::getMessageCount() {
 
+	if (!isOpen()) {
+		throw exceptions::illegal_state("Folder not open");
+	}
+
 	return m_messageCount;
 }
 
@@ -1074,6 +1082,10 @@ shared_ptr <folderStatus> maildirFolder::getStatus() {
 
 	shared_ptr <maildirStore> store = m_store.lock();
 
+	if (!store) {
+		throw exceptions::illegal_state("Store disconnected");
+	}
+
 	const size_t oldCount = m_messageCount;
 
 	scanFolder();
-- 
2.43.0


From ddb87d77dc1eba39059fa372cb1c9199e05c14da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:17 +0000
Subject: [PATCH 06/84] fix: sendmail transport refuses to send when not
 connected

---
 src/vmime/net/sendmail/sendmailTransport.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vmime/net/sendmail/sendmailTransport.cpp b/src/vmime/net/sendmail/sendmailTransport.cpp
index 75508ee..d289af3 100644
--- a/src/vmime/net/sendmail/sendmailTransport.cpp
+++ b/src/vmime/net/sendmail/sendmailTransport.cpp
@@ -152,6 +152,10 @@ void sendmailTransport::send(
 	const sendOptions& /* options */
 ) {
 
+	if (!isConnected()) {
+		throw exceptions::not_connected();
+	}
+
 	// If no recipient/expeditor was found, throw an exception
 	if (recipients.isEmpty()) {
 		throw exceptions::no_recipient();
-- 
2.43.0


From eb86f0d9366e543ee2035ab8df66f8269f2043e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 07/84] fix: POP3 folder reports a failed RSET when closing
 without expunge

---
 src/vmime/net/pop3/POP3Folder.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/pop3/POP3Folder.cpp b/src/vmime/net/pop3/POP3Folder.cpp
index c858409..820d717 100644
--- a/src/vmime/net/pop3/POP3Folder.cpp
+++ b/src/vmime/net/pop3/POP3Folder.cpp
@@ -187,7 +187,13 @@ void POP3Folder::close(const bool expunge) {
 
 	if (!expunge) {
 		POP3Command::RSET()->send(store->getConnection());
-		POP3Response::readResponse(store->getConnection());
+
+		shared_ptr <POP3Response> response =
+			POP3Response::readResponse(store->getConnection());
+
+		if (!response->isSuccess()) {
+			throw exceptions::command_error("RSET", response->getFirstLine());
+		}
 	}
 
 	m_open = false;
-- 
2.43.0


From 3abf3442e4c37c28ee168e02c71494a39972c636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 08/84] fix: single-line POP3 error reply to RETR/TOP is not
 taken for message data

---
 src/vmime/net/pop3/POP3Response.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/vmime/net/pop3/POP3Response.cpp b/src/vmime/net/pop3/POP3Response.cpp
index 725841e..9fd43fe 100644
--- a/src/vmime/net/pop3/POP3Response.cpp
+++ b/src/vmime/net/pop3/POP3Response.cpp
@@ -374,6 +374,17 @@ size_t POP3Response::readResponseImpl(
 		}
 	}
 
+	// Response consists of a single line
+	if (!codeDone) {
+
+		string responseData;
+		stripFirstLine(temp, responseData, &firstLine);
+
+		if (getResponseCode(firstLine) != CODE_OK) {
+			throw exceptions::command_error("?", firstLine);
+		}
+	}
+
 	if (progress) {
 		progress->stop(total);
 	}
-- 
2.43.0


From 93be0b972c4da86df52bfdc6df69cd9e3c81f14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:12 +0000
Subject: [PATCH 09/84] fix: IMAP folder reads and checks the reply to CLOSE

---
 src/vmime/net/imap/IMAPFolder.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index de0a840..f0a1f64 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -320,6 +320,14 @@ void IMAPFolder::close(const bool expunge) {
 		}
 
 		IMAPCommand::CLOSE()->send(oldConnection);
+
+		scoped_ptr <IMAPParser::response> resp(oldConnection->readResponse());
+
+		if (resp->isBad() || resp->response_done->response_tagged->
+			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
+
+			throw exceptions::command_error("CLOSE", resp->getErrorLog(), "bad response");
+		}
 	}
 
 	// Close this folder connection
-- 
2.43.0


From 1e3fa6cfd6e8550f65f26799ecc88a860cbdfe4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:32 +0000
Subject: [PATCH 10/84] fix: copying a context, parsing context or generation
 context copies all options

---
 src/vmime/context.cpp           | 3 ++-
 src/vmime/generationContext.cpp | 1 +
 src/vmime/parsingContext.cpp    | 4 +++-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vmime/context.cpp b/src/vmime/context.cpp
index 3fc4941..e9045e1 100644
--- a/src/vmime/context.cpp
+++ b/src/vmime/context.cpp
@@ -35,7 +35,8 @@ context::context()
 
 context::context(const context& ctx)
 	: object(),
-	  m_internationalizedEmail(ctx.m_internationalizedEmail) {
+	  m_internationalizedEmail(ctx.m_internationalizedEmail),
+	  m_charsetConvOptions(ctx.m_charsetConvOptions) {
 
 }
 
diff --git a/src/vmime/generationContext.cpp b/src/vmime/generationContext.cpp
index 24757c7..514c782 100644
--- a/src/vmime/generationContext.cpp
+++ b/src/vmime/generationContext.cpp
@@ -132,6 +132,7 @@ void generationContext::copyFrom(const generationContext& ctx) {
 	m_maxLineLength = ctx.m_maxLineLength;
 	m_prologText = ctx.m_prologText;
 	m_epilogText = ctx.m_epilogText;
+	m_wrapMessageId = ctx.m_wrapMessageId;
 	m_paramValueMode = ctx.m_paramValueMode;
 }
 
diff --git a/src/vmime/parsingContext.cpp b/src/vmime/parsingContext.cpp
index e80eab7..15763c2 100644
--- a/src/vmime/parsingContext.cpp
+++ b/src/vmime/parsingContext.cpp
@@ -35,7 +35,9 @@ parsingContext::parsingContext()
 
 parsingContext::parsingContext(const parsingContext& ctx)
 	: context(ctx),
-	  m_headerParseErrorRecovery(vmime::headerParseRecoveryMethod::SKIP_LINE) {
+	  m_headerParseErrorRecovery(ctx.m_headerParseErrorRecovery),
+	  m_headerParseRecoveryNeeded(ctx.m_headerParseRecoveryNeeded),
+	  m_useMyHostname(ctx.m_useMyHostname) {
 
 }
 
-- 
2.43.0


From fe1c141a0d5cc37029f579558a01082635434977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:32 +0000
Subject: [PATCH 11/84] fix: word::clone() keeps the language

---
 src/vmime/word.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/word.cpp b/src/vmime/word.cpp
index a16b4b5..c020362 100644
--- a/src/vmime/word.cpp
+++ b/src/vmime/word.cpp
@@ -881,7 +881,7 @@ const string word::getConvertedText(
 
 shared_ptr <component> word::clone() const {
 
-	return make_shared <word>(m_buffer, m_charset);
+	return make_shared <word>(m_buffer, m_charset, m_lang);
 }
 
 
-- 
2.43.0


From 8220fcf875d00d9c2baefcd9dd249a0500cce3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:32 +0000
Subject: [PATCH 12/84] fix: assigning an encoding copies its usage

---
 src/vmime/encoding.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vmime/encoding.cpp b/src/vmime/encoding.cpp
index bca3157..e12f4f6 100644
--- a/src/vmime/encoding.cpp
+++ b/src/vmime/encoding.cpp
@@ -293,6 +293,7 @@ void encoding::copyFrom(const component& other) {
 	const encoding& e = dynamic_cast <const encoding&>(other);
 
 	m_name = e.m_name;
+	m_usage = e.m_usage;
 }
 
 
-- 
2.43.0


From dbbb50ecaeeb73fc7513eb7fa07f90deda48d3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:32 +0000
Subject: [PATCH 13/84] fix: content handlers keep their content type hint when
 copied or cloned

---
 src/vmime/emptyContentHandler.cpp               |  2 +-
 src/vmime/fileContentHandler.cpp                | 17 ++++++++++++++---
 .../net/imap/IMAPMessagePartContentHandler.cpp  |  4 +---
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/vmime/emptyContentHandler.cpp b/src/vmime/emptyContentHandler.cpp
index 3cf7965..bb14931 100644
--- a/src/vmime/emptyContentHandler.cpp
+++ b/src/vmime/emptyContentHandler.cpp
@@ -34,7 +34,7 @@ emptyContentHandler::emptyContentHandler() {
 
 shared_ptr <contentHandler> emptyContentHandler::clone() const {
 
-	return make_shared <emptyContentHandler>();
+	return make_shared <emptyContentHandler>(*this);
 }
 
 
diff --git a/src/vmime/fileContentHandler.cpp b/src/vmime/fileContentHandler.cpp
index baedf69..e78de38 100644
--- a/src/vmime/fileContentHandler.cpp
+++ b/src/vmime/fileContentHandler.cpp
@@ -54,15 +54,26 @@ fileContentHandler::~fileContentHandler() {
 
 
 fileContentHandler::fileContentHandler(const fileContentHandler& cts)
-	: streamContentHandler() {
+	: streamContentHandler(cts),
+	  m_encoding(cts.m_encoding),
+	  m_file(cts.m_file) {
 
-	setData(cts.m_file, cts.m_encoding);
+	if (cts.m_file) {
+		setData(cts.m_file, cts.m_encoding);
+	}
 }
 
 
 fileContentHandler& fileContentHandler::operator=(const fileContentHandler& cts) {
 
-	setData(cts.m_file, cts.m_encoding);
+	streamContentHandler::operator=(cts);
+
+	m_encoding = cts.m_encoding;
+	m_file = cts.m_file;
+
+	if (cts.m_file) {
+		setData(cts.m_file, cts.m_encoding);
+	}
 
 	return *this;
 }
diff --git a/src/vmime/net/imap/IMAPMessagePartContentHandler.cpp b/src/vmime/net/imap/IMAPMessagePartContentHandler.cpp
index 040d2ab..a2b5475 100644
--- a/src/vmime/net/imap/IMAPMessagePartContentHandler.cpp
+++ b/src/vmime/net/imap/IMAPMessagePartContentHandler.cpp
@@ -55,9 +55,7 @@ IMAPMessagePartContentHandler::IMAPMessagePartContentHandler(
 
 shared_ptr <contentHandler> IMAPMessagePartContentHandler::clone() const {
 
-	return make_shared <IMAPMessagePartContentHandler>(
-		m_message.lock(), m_part.lock(), m_encoding
-	);
+	return make_shared <IMAPMessagePartContentHandler>(*this);
 }
 
 
-- 
2.43.0


From b8d21b9cc60ccc21fc0ed6108361e5b811caedc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:32 +0000
Subject: [PATCH 14/84] fix: clones of certificate exceptions keep the
 certificate

---
 src/vmime/security/cert/certificateException.cpp                | 2 +-
 src/vmime/security/cert/certificateExpiredException.cpp         | 2 +-
 .../security/cert/certificateIssuerVerificationException.cpp    | 2 +-
 src/vmime/security/cert/certificateNotTrustedException.cpp      | 2 +-
 src/vmime/security/cert/certificateNotYetValidException.cpp     | 2 +-
 src/vmime/security/cert/serverIdentityException.cpp             | 2 +-
 src/vmime/security/cert/unsupportedCertificateTypeException.cpp | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/vmime/security/cert/certificateException.cpp b/src/vmime/security/cert/certificateException.cpp
index 51a4f03..1267539 100644
--- a/src/vmime/security/cert/certificateException.cpp
+++ b/src/vmime/security/cert/certificateException.cpp
@@ -54,7 +54,7 @@ certificateException::~certificateException() throw() {
 
 exception* certificateException::clone() const {
 
-	return new certificateException(what());
+	return new certificateException(*this);
 }
 
 
diff --git a/src/vmime/security/cert/certificateExpiredException.cpp b/src/vmime/security/cert/certificateExpiredException.cpp
index 1aa248e..6f144ad 100644
--- a/src/vmime/security/cert/certificateExpiredException.cpp
+++ b/src/vmime/security/cert/certificateExpiredException.cpp
@@ -43,7 +43,7 @@ certificateExpiredException::certificateExpiredException()
 
 exception* certificateExpiredException::clone() const
 {
-	return new certificateExpiredException();
+	return new certificateExpiredException(*this);
 }
 
 
diff --git a/src/vmime/security/cert/certificateIssuerVerificationException.cpp b/src/vmime/security/cert/certificateIssuerVerificationException.cpp
index adf5049..555b45f 100644
--- a/src/vmime/security/cert/certificateIssuerVerificationException.cpp
+++ b/src/vmime/security/cert/certificateIssuerVerificationException.cpp
@@ -43,7 +43,7 @@ certificateIssuerVerificationException::certificateIssuerVerificationException()
 
 exception* certificateIssuerVerificationException::clone() const {
 
-	return new certificateIssuerVerificationException();
+	return new certificateIssuerVerificationException(*this);
 }
 
 
diff --git a/src/vmime/security/cert/certificateNotTrustedException.cpp b/src/vmime/security/cert/certificateNotTrustedException.cpp
index a5ebb99..d3b3c86 100644
--- a/src/vmime/security/cert/certificateNotTrustedException.cpp
+++ b/src/vmime/security/cert/certificateNotTrustedException.cpp
@@ -43,7 +43,7 @@ certificateNotTrustedException::certificateNotTrustedException()
 
 exception* certificateNotTrustedException::clone() const {
 
-	return new certificateNotTrustedException();
+	return new certificateNotTrustedException(*this);
 }
 
 
diff --git a/src/vmime/security/cert/certificateNotYetValidException.cpp b/src/vmime/security/cert/certificateNotYetValidException.cpp
index ed8ca79..a515cd3 100644
--- a/src/vmime/security/cert/certificateNotYetValidException.cpp
+++ b/src/vmime/security/cert/certificateNotYetValidException.cpp
@@ -43,7 +43,7 @@ certificateNotYetValidException::certificateNotYetValidException()
 
 exception* certificateNotYetValidException::clone() const {
 
-	return new certificateNotYetValidException();
+	return new certificateNotYetValidException(*this);
 }
 
 
diff --git a/src/vmime/security/cert/serverIdentityException.cpp b/src/vmime/security/cert/serverIdentityException.cpp
index fcbe571..d1e42da 100644
--- a/src/vmime/security/cert/serverIdentityException.cpp
+++ b/src/vmime/security/cert/serverIdentityException.cpp
@@ -43,7 +43,7 @@ serverIdentityException::serverIdentityException()
 
 exception* serverIdentityException::clone() const {
 
-	return new serverIdentityException();
+	return new serverIdentityException(*this);
 }
 
 
diff --git a/src/vmime/security/cert/unsupportedCertificateTypeException.cpp b/src/vmime/security/cert/unsupportedCertificateTypeException.cpp
index 5765651..cdbdb5e 100644
--- a/src/vmime/security/cert/unsupportedCertificateTypeException.cpp
+++ b/src/vmime/security/cert/unsupportedCertificateTypeException.cpp
@@ -49,7 +49,7 @@ unsupportedCertificateTypeException::~unsupportedCertificateTypeException() thro
 
 exception* unsupportedCertificateTypeException::clone() const {
 
-	return new unsupportedCertificateTypeException(m_type);
+	return new unsupportedCertificateTypeException(*this);
 }
 
 
-- 
2.43.0


From 4fcc8d4d65ff3f76868f96682e2a585febda6b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:32 +0000
Subject: [PATCH 15/84] fix: message::clone() creates a message

---
 src/vmime/message.cpp | 10 ++++++++++
 src/vmime/message.hpp |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/src/vmime/message.cpp b/src/vmime/message.cpp
index 9e6956d..d07003d 100644
--- a/src/vmime/message.cpp
+++ b/src/vmime/message.cpp
@@ -45,5 +45,15 @@ string message::generate(
 }
 
 
+shared_ptr <component> message::clone() const {
+
+	shared_ptr <message> msg = make_shared <message>();
+
+	msg->copyFrom(*this);
+
+	return msg;
+}
+
+
 } // vmime
 
diff --git a/src/vmime/message.hpp b/src/vmime/message.hpp
index 53bc095..eb5a46d 100644
--- a/src/vmime/message.hpp
+++ b/src/vmime/message.hpp
@@ -51,6 +51,8 @@ public:
 		const size_t maxLineLength = generationContext::getDefaultContext().getMaxLineLength(),
 		const size_t curLinePos = 0
 	) const;
+
+	shared_ptr <component> clone() const;
 };
 
 
-- 
2.43.0


From e6660b85c330fab984a3d057076d4e19a0a40d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:32 +0000
Subject: [PATCH 16/84] fix: exception, messageSet and fileInfo own memory and
 define assignment/copy

---
 src/vmime/exception.cpp      | 13 +++++++++++++
 src/vmime/exception.hpp      |  2 ++
 src/vmime/fileAttachment.cpp | 24 ++++++++++++++++++++++++
 src/vmime/fileAttachment.hpp |  3 +++
 src/vmime/net/messageSet.cpp | 10 ++++++++++
 src/vmime/net/messageSet.hpp |  2 ++
 6 files changed, 54 insertions(+)

diff --git a/src/vmime/exception.cpp b/src/vmime/exception.cpp
index fb9dea9..a9f5883 100644
--- a/src/vmime/exception.cpp
+++ b/src/vmime/exception.cpp
@@ -58,6 +58,19 @@ exception::~exception() throw() {
 }
 
 
+exception& exception::operator=(const exception& e) {
+
+	exception* other = e.m_other == NULL ? NULL : e.m_other->clone();
+
+	std::runtime_error::operator=(e);
+
+	delete m_other;
+	m_other = other;
+
+	return *this;
+}
+
+
 void exception::chainException(const exception& other) {
 
 	exception* e = other.clone();
diff --git a/src/vmime/exception.hpp b/src/vmime/exception.hpp
index 83f6c9c..a25783d 100644
--- a/src/vmime/exception.hpp
+++ b/src/vmime/exception.hpp
@@ -53,6 +53,8 @@ public:
 
 	virtual ~exception() throw();
 
+	exception& operator=(const exception& e);
+
 	/** Chain the specified exception with this exception.
 	  *
 	  * @param other next exception in the chain
diff --git a/src/vmime/fileAttachment.cpp b/src/vmime/fileAttachment.cpp
index ac75570..469c1b1 100644
--- a/src/vmime/fileAttachment.cpp
+++ b/src/vmime/fileAttachment.cpp
@@ -216,6 +216,30 @@ fileAttachment::fileInfo::fileInfo()
 }
 
 
+fileAttachment::fileInfo::fileInfo(const fileInfo& other)
+	: m_filename(other.m_filename ? new word(*other.m_filename) : NULL),
+	  m_size(other.m_size ? new size_t(*other.m_size) : NULL),
+	  m_creationDate(other.m_creationDate ? new datetime(*other.m_creationDate) : NULL),
+	  m_modifDate(other.m_modifDate ? new datetime(*other.m_modifDate) : NULL),
+	  m_readDate(other.m_readDate ? new datetime(*other.m_readDate) : NULL) {
+
+}
+
+
+fileAttachment::fileInfo& fileAttachment::fileInfo::operator=(const fileInfo& other) {
+
+	fileInfo info(other);
+
+	std::swap(m_filename, info.m_filename);
+	std::swap(m_size, info.m_size);
+	std::swap(m_creationDate, info.m_creationDate);
+	std::swap(m_modifDate, info.m_modifDate);
+	std::swap(m_readDate, info.m_readDate);
+
+	return *this;
+}
+
+
 fileAttachment::fileInfo::~fileInfo()
 {
 	delete m_filename;
diff --git a/src/vmime/fileAttachment.hpp b/src/vmime/fileAttachment.hpp
index c77662f..8f21c5e 100644
--- a/src/vmime/fileAttachment.hpp
+++ b/src/vmime/fileAttachment.hpp
@@ -92,8 +92,11 @@ public:
 	public:
 
 		fileInfo();
+		fileInfo(const fileInfo& other);
 		~fileInfo();
 
+		fileInfo& operator=(const fileInfo& other);
+
 		/** Check whether the 'filename' property is present.
 		  *
 		  * @return true if the 'filename' property is set,
diff --git a/src/vmime/net/messageSet.cpp b/src/vmime/net/messageSet.cpp
index fe2d645..ac947a3 100644
--- a/src/vmime/net/messageSet.cpp
+++ b/src/vmime/net/messageSet.cpp
@@ -178,6 +178,16 @@ messageSet::messageSet(const messageSet& other)
 }
 
 
+messageSet& messageSet::operator=(const messageSet& other) {
+
+	messageSet set(other);
+
+	m_ranges.swap(set.m_ranges);
+
+	return *this;
+}
+
+
 messageSet::~messageSet() {
 
 	for (size_t i = 0, n = m_ranges.size() ; i < n ; ++i) {
diff --git a/src/vmime/net/messageSet.hpp b/src/vmime/net/messageSet.hpp
index 848c4c9..0fa6674 100644
--- a/src/vmime/net/messageSet.hpp
+++ b/src/vmime/net/messageSet.hpp
@@ -215,6 +215,8 @@ public:
 
 	messageSet(const messageSet& other);
 
+	messageSet& operator=(const messageSet& other);
+
 	/** Constructs an empty set.
 	  *
 	  * @return new empty message set
-- 
2.43.0


From 7d32bd221bca511af063de572c3b4a31f17b7f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:32 +0000
Subject: [PATCH 17/84] fix: assigning an object to itself does not empty it,
 and a body without part can be copied

---
 src/vmime/addressList.cpp              | 4 ++++
 src/vmime/body.cpp                     | 6 +++++-
 src/vmime/mailboxGroup.cpp             | 4 ++++
 src/vmime/messageIdSequence.cpp        | 4 ++++
 src/vmime/parameterizedHeaderField.cpp | 4 ++++
 src/vmime/propertySet.cpp              | 4 ++++
 src/vmime/text.cpp                     | 4 ++++
 7 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/vmime/addressList.cpp b/src/vmime/addressList.cpp
index 75f6224..4f9118a 100644
--- a/src/vmime/addressList.cpp
+++ b/src/vmime/addressList.cpp
@@ -115,6 +115,10 @@ void addressList::copyFrom(const component& other) {
 
 	const addressList& addrList = dynamic_cast <const addressList&>(other);
 
+	if (&other == this) {
+		return;
+	}
+
 	removeAllAddresses();
 
 	for (std::vector <shared_ptr <address> >::const_iterator it = addrList.m_list.begin() ;
diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index 1ba7d42..e232648 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -814,6 +814,10 @@ void body::copyFrom(const component& other) {
 
 	const body& bdy = dynamic_cast <const body&>(other);
 
+	if (&other == this) {
+		return;
+	}
+
 	m_prologText = bdy.m_prologText;
 	m_epilogText = bdy.m_epilogText;
 
@@ -823,7 +827,7 @@ void body::copyFrom(const component& other) {
 
 	for (size_t p = 0 ; p < bdy.getPartCount() ; ++p) {
 
-		shared_ptr <bodyPart> part = m_part->createChildPart();
+		shared_ptr <bodyPart> part = m_part ? m_part->createChildPart() : make_shared <bodyPart>();
 
 		part->copyFrom(*bdy.getPartAt(p));
 
diff --git a/src/vmime/mailboxGroup.cpp b/src/vmime/mailboxGroup.cpp
index ff9c74f..8de4c32 100644
--- a/src/vmime/mailboxGroup.cpp
+++ b/src/vmime/mailboxGroup.cpp
@@ -202,6 +202,10 @@ void mailboxGroup::copyFrom(const component& other) {
 
 	const mailboxGroup& source = dynamic_cast <const mailboxGroup&>(other);
 
+	if (&other == this) {
+		return;
+	}
+
 	m_name = source.m_name;
 
 	removeAllMailboxes();
diff --git a/src/vmime/messageIdSequence.cpp b/src/vmime/messageIdSequence.cpp
index e1d324a..6259a5d 100644
--- a/src/vmime/messageIdSequence.cpp
+++ b/src/vmime/messageIdSequence.cpp
@@ -58,6 +58,10 @@ void messageIdSequence::copyFrom(const component& other) {
 
 	const messageIdSequence& midSeq = dynamic_cast <const messageIdSequence&>(other);
 
+	if (&other == this) {
+		return;
+	}
+
 	removeAllMessageIds();
 
 	for (unsigned int i = 0 ; i < midSeq.m_list.size() ; ++i) {
diff --git a/src/vmime/parameterizedHeaderField.cpp b/src/vmime/parameterizedHeaderField.cpp
index af98495..bd9c886 100644
--- a/src/vmime/parameterizedHeaderField.cpp
+++ b/src/vmime/parameterizedHeaderField.cpp
@@ -397,6 +397,10 @@ size_t parameterizedHeaderField::getGeneratedSize(const generationContext& ctx)
 
 void parameterizedHeaderField::copyFrom(const component& other) {
 
+	if (&other == this) {
+		return;
+	}
+
 	headerField::copyFrom(other);
 
 	const parameterizedHeaderField& source = dynamic_cast<const parameterizedHeaderField&>(other);
diff --git a/src/vmime/propertySet.cpp b/src/vmime/propertySet.cpp
index e0d4848..eb007b6 100644
--- a/src/vmime/propertySet.cpp
+++ b/src/vmime/propertySet.cpp
@@ -58,6 +58,10 @@ propertySet::~propertySet() {
 
 propertySet& propertySet::operator=(const propertySet& set) {
 
+	if (&set == this) {
+		return *this;
+	}
+
 	removeAllProperties();
 
 	for (std::list <shared_ptr <property> >::const_iterator it = set.m_props.begin() ;
diff --git a/src/vmime/text.cpp b/src/vmime/text.cpp
index 2c14110..b11d25a 100644
--- a/src/vmime/text.cpp
+++ b/src/vmime/text.cpp
@@ -106,6 +106,10 @@ void text::copyFrom(const component& other) {
 
 	const text& t = dynamic_cast <const text&>(other);
 
+	if (&other == this) {
+		return;
+	}
+
 	removeAllWords();
 
 	for (std::vector <shared_ptr <word> >::const_iterator i = t.m_words.begin() ;
-- 
2.43.0


From f33b9565a34983a037991c93312b594ed10593ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:18 +0000
Subject: [PATCH 18/84] fix: initialise every member of datetime, POP3 and IMAP
 objects on construction

---
 src/vmime/dateTime.cpp                          | 9 ++++++++-
 src/vmime/net/imap/IMAPParser.hpp               | 3 ++-
 src/vmime/net/pop3/POP3Folder.cpp               | 3 ++-
 src/vmime/net/pop3/POP3Response.cpp             | 3 ++-
 src/vmime/platforms/posix/posixChildProcess.cpp | 3 ++-
 5 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/vmime/dateTime.cpp b/src/vmime/dateTime.cpp
index 9dde881..b27a691 100644
--- a/src/vmime/dateTime.cpp
+++ b/src/vmime/dateTime.cpp
@@ -711,7 +711,14 @@ datetime::datetime(const time_t t, const int zone) {
 }
 
 
-datetime::datetime(const string& date) {
+datetime::datetime(const string& date)
+	: m_year(1970),
+	  m_month(1),
+	  m_day(1),
+	  m_hour(0),
+	  m_minute(0),
+	  m_second(0),
+	  m_zone(0) {
 
 	parse(date);
 }
diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index 78b7697..589f955 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -3733,7 +3733,8 @@ public:
 	DECLARE_COMPONENT(message_data)
 
 		message_data()
-			: number(0) {
+			: type(EXPUNGE),
+			  number(0) {
 
 		}
 
diff --git a/src/vmime/net/pop3/POP3Folder.cpp b/src/vmime/net/pop3/POP3Folder.cpp
index 820d717..039a43b 100644
--- a/src/vmime/net/pop3/POP3Folder.cpp
+++ b/src/vmime/net/pop3/POP3Folder.cpp
@@ -53,7 +53,8 @@ POP3Folder::POP3Folder(
 	  m_path(path),
 	  m_name(path.isEmpty() ? folder::path::component("") : path.getLastComponent()),
 	  m_mode(-1),
-	  m_open(false) {
+	  m_open(false),
+	  m_messageCount(0) {
 
 	store->registerFolder(this);
 }
diff --git a/src/vmime/net/pop3/POP3Response.cpp b/src/vmime/net/pop3/POP3Response.cpp
index 9fd43fe..3856c74 100644
--- a/src/vmime/net/pop3/POP3Response.cpp
+++ b/src/vmime/net/pop3/POP3Response.cpp
@@ -53,7 +53,8 @@ POP3Response::POP3Response(
 )
 	: m_socket(sok),
 	  m_timeoutHandler(toh),
-	  m_tracer(tracer) {
+	  m_tracer(tracer),
+	  m_code(CODE_ERR) {
 
 }
 
diff --git a/src/vmime/platforms/posix/posixChildProcess.cpp b/src/vmime/platforms/posix/posixChildProcess.cpp
index 4a9fef3..f728224 100644
--- a/src/vmime/platforms/posix/posixChildProcess.cpp
+++ b/src/vmime/platforms/posix/posixChildProcess.cpp
@@ -146,7 +146,8 @@ class inputStreamPosixPipeAdapter : public utility::inputStream {
 public:
 
 	inputStreamPosixPipeAdapter(const int desc)
-		: m_desc(desc) {
+		: m_desc(desc),
+		  m_eof(false) {
 	}
 
 	bool eof() const {
-- 
2.43.0


From f140ccc34b6feb4691a583ea0d8276f3ee7b4c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:18 +0000
Subject: [PATCH 19/84] fix: default certificate verifier checks the signature
 of each link and refuses an empty chain

---
 src/vmime/security/cert/defaultCertificateVerifier.cpp      | 6 +++---
 src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp | 4 ++++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/vmime/security/cert/defaultCertificateVerifier.cpp b/src/vmime/security/cert/defaultCertificateVerifier.cpp
index c41396f..4bff2f3 100644
--- a/src/vmime/security/cert/defaultCertificateVerifier.cpp
+++ b/src/vmime/security/cert/defaultCertificateVerifier.cpp
@@ -62,7 +62,7 @@ void defaultCertificateVerifier::verify(
 ) {
 
 	if (chain->getCount() == 0) {
-		return;
+		throw certificateNotTrustedException();
 	}
 
 	const string type = chain->getAt(0)->getType();
@@ -85,7 +85,7 @@ void defaultCertificateVerifier::verifyX509chain
 			shared_ptr <X509Certificate> cert = dynamicCast <X509Certificate>(chain->getAt(i));
 			shared_ptr <X509Certificate> next = dynamicCast <X509Certificate>(chain->getAt(i + 1));
 
-			if (!cert->checkIssuer(next)) {
+			if (!cert->checkIssuer(next) || !cert->verify(next)) {
 				certificateIssuerVerificationException ex;
 				ex.setCertificate(cert);
 
@@ -155,7 +155,7 @@ void defaultCertificateVerifier::verifyX509(
 			shared_ptr <X509Certificate> next =
 				dynamicCast <X509Certificate>(chain->getAt(i + 1));
 
-			if (!cert->checkIssuer(next)) {
+			if (!cert->checkIssuer(next) || !cert->verify(next)) {
 
 				certificateIssuerVerificationException ex;
 				ex.setCertificate(cert);
diff --git a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
index bd5a75d..84b8e17 100644
--- a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
+++ b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
@@ -383,6 +383,10 @@ bool X509Certificate_OpenSSL::verify(const shared_ptr <const X509Certificate>& c
 
 				X509_STORE_CTX_init(verifyCtx, store, m_data->cert, NULL);
 
+				// The issuer given by the caller is the trust anchor, even
+				// if it is not self-signed
+				X509_STORE_CTX_set_flags(verifyCtx, X509_V_FLAG_PARTIAL_CHAIN);
+
 				int ret = X509_verify_cert(verifyCtx);
 
 				if (ret == 1) {
-- 
2.43.0


From 9afae4fa489ee4ea692e0dcc01c1a4c55d4fdf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:18 +0000
Subject: [PATCH 20/84] fix: OpenSSL certificate host name check no longer
 accepts any name with a common suffix

---
 .../cert/openssl/X509Certificate_OpenSSL.cpp  | 56 +++++--------------
 .../cert/openssl/X509Certificate_OpenSSL.hpp  | 10 ----
 2 files changed, 15 insertions(+), 51 deletions(-)

diff --git a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
index 84b8e17..8774b4a 100644
--- a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
+++ b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
@@ -413,50 +413,32 @@ bool X509Certificate_OpenSSL::verify(const shared_ptr <const X509Certificate>& c
 }
 
 
-// static
-bool X509Certificate_OpenSSL::cnMatch(const char* cnBuf, const char* host) {
-
-	// Right-to-left match, looking for a '*' wildcard
-	const bool hasWildcard = (strlen(cnBuf) > 1 && cnBuf[0] == '*' && cnBuf[1] == '.');
-	const char* cnBufReverseEndPtr = (cnBuf + (hasWildcard ? 2 : 0));
-	const char* hostPtr = host + strlen(host);
-	const char* cnPtr = cnBuf + strlen(cnBuf);
-
-	bool matches = true;
-
-	while (matches && --hostPtr >= host && --cnPtr >= cnBufReverseEndPtr) {
-		matches = (toupper(*hostPtr) == toupper(*cnPtr));
-	}
-
-	return matches;
-}
-
-
 bool X509Certificate_OpenSSL::verifyHostName(
 	const string& hostname,
 	std::vector <std::string>* nonMatchingNames
 ) const {
 
-	// First, check subject common name against hostname
+	if (X509_check_host(m_data->cert, hostname.c_str(), hostname.length(), 0, NULL) == 1 ||
+	    X509_check_ip_asc(m_data->cert, hostname.c_str(), 0) == 1) {
+
+		return true;
+	}
+
+	if (!nonMatchingNames) {
+		return false;
+	}
+
+	// List the names this certificate was issued for: first, the subject common name
 	char CNBuffer[1024];
 	CNBuffer[sizeof(CNBuffer) - 1] = '\0';
 
 	X509_NAME* xname = X509_get_subject_name(m_data->cert);
 
 	if (X509_NAME_get_text_by_NID(xname, NID_commonName, CNBuffer, sizeof(CNBuffer)) != -1) {
-
-		if (cnMatch(CNBuffer, hostname.c_str())) {
-			return true;
-		}
-
-		if (nonMatchingNames) {
-			nonMatchingNames->push_back(CNBuffer);
-		}
+		nonMatchingNames->push_back(CNBuffer);
 	}
 
 	// Now, look in subject alternative names
-	bool verify = false;
-
 	STACK_OF(GENERAL_NAME)* altNames = static_cast <GENERAL_NAMES*>
 		(X509_get_ext_d2i(m_data->cert, NID_subject_alt_name, NULL, NULL));
 
@@ -464,14 +446,13 @@ bool X509Certificate_OpenSSL::verifyHostName(
 		return false;
 	}
 
-	// Check each name within the extension
+	// List each DNS name within the extension
 	for (int i = 0, n = sk_GENERAL_NAME_num(altNames) ; i < n ; ++i) {
 
 		const GENERAL_NAME* currentName = sk_GENERAL_NAME_value(altNames, i);
 
 		if (currentName->type == GEN_DNS) {
 
-			// Current name is a DNS name, let's check it
 			const char *DNSName = (const char *) ASN1_STRING_get0_data(currentName->d.dNSName);
 
 			// Make sure there isn't an embedded NUL character in the DNS name
@@ -480,20 +461,13 @@ bool X509Certificate_OpenSSL::verifyHostName(
 				break;
 			}
 
-			if (cnMatch(DNSName, hostname.c_str())) {
-				verify = true;
-				break;
-			}
-
-			if (nonMatchingNames) {
-				nonMatchingNames->push_back(DNSName);
-			}
+			nonMatchingNames->push_back(DNSName);
 		}
 	}
 
 	sk_GENERAL_NAME_pop_free(altNames, GENERAL_NAME_free);
 
-	return verify;
+	return false;
 }
 
 
diff --git a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.hpp b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.hpp
index c0ebf3c..74d2640 100644
--- a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.hpp
+++ b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.hpp
@@ -87,16 +87,6 @@ public:
 
 private:
 
-	/** Internal utility function to test whether a hostname matches
-	  * the specified X509 Common Name (wildcard is supported).
-	  *
-	  * @param cnBuf pointer to buffer holding Common Name
-	  * @param host pointer to buffer holding host name
-	  * @return true if the hostname matches the Common Name, or
-	  * false otherwise
-	  */
-	static bool cnMatch(const char* cnBuf, const char* host);
-
 	/** Internal utility function to convert ASN1_TIME
 	 *  structs to vmime::datetime
 	 *
-- 
2.43.0


From 35232b35f04c2b3461ecb145cdc21c6aa4dde6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:34 +0000
Subject: [PATCH 21/84] fix: discard SMTP/IMAP data received before TLS or SASL
 protection starts; IMAP parser reads from the SASL-secured socket

---
 src/vmime/net/imap/IMAPConnection.cpp | 2 ++
 src/vmime/net/imap/IMAPParser.hpp     | 7 +++++++
 src/vmime/net/smtp/SMTPConnection.cpp | 8 ++++++++
 3 files changed, 17 insertions(+)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index 0e4020f..8e792a2 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -430,6 +430,8 @@ void IMAPConnection::authenticateSASL() {
 			    	status == IMAPParser::resp_cond_state::OK) {
 
 				m_socket = saslSession->getSecuredSocket(m_socket);
+				m_parser->setSocket(m_socket);
+
 				return;
 
 			} else {
diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index 589f955..a401ce2 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -286,6 +286,13 @@ public:
 	  */
 	void setSocket(const shared_ptr <socket>& sok) {
 
+		// Data received from another socket (for example, before a TLS
+		// session has been established) must not be parsed as a response
+		// received from this one
+		if (sok != m_socket.lock()) {
+			m_buffer.clear();
+		}
+
 		m_socket = sok;
 	}
 
diff --git a/src/vmime/net/smtp/SMTPConnection.cpp b/src/vmime/net/smtp/SMTPConnection.cpp
index 07d0376..72d76a2 100644
--- a/src/vmime/net/smtp/SMTPConnection.cpp
+++ b/src/vmime/net/smtp/SMTPConnection.cpp
@@ -463,6 +463,10 @@ void SMTPConnection::authenticateSASL() {
 				case 235: {
 
 					m_socket = saslSession->getSecuredSocket(m_socket);
+
+					// Discard data received before the security layer was set up
+					m_responseState = SMTPResponse::state();
+
 					return;
 				}
 				case 334: {
@@ -573,6 +577,10 @@ void SMTPConnection::startTLS() {
 
 		m_socket = tlsSocket;
 
+		// Data received before TLS has been started must not be used as
+		// a response to a command sent over the secured connection
+		m_responseState = SMTPResponse::state();
+
 		m_secured = true;
 		m_cntInfos = make_shared <tls::TLSSecuredConnectionInfos>(
 			m_cntInfos->getHost(), m_cntInfos->getPort(), tlsSession, tlsSocket
-- 
2.43.0


From 55cb70c5396af7057b8c3cf8ec7428f7f5bfc5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:47 +0000
Subject: [PATCH 22/84] fix: certificates are not equal when their fingerprint
 cannot be computed (MD5 disabled)

---
 src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp | 8 +++++---
 .../security/cert/openssl/X509Certificate_OpenSSL.cpp     | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp b/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp
index 2ac0ed8..84bad92 100644
--- a/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp
+++ b/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp
@@ -385,10 +385,12 @@ bool X509Certificate_GnuTLS::equals(const shared_ptr <const certificate>& other)
 		return false;
 	}
 
-	const byteArray fp1 = getFingerprint(DIGEST_MD5);
-	const byteArray fp2 = otherX509->getFingerprint(DIGEST_MD5);
+	const byteArray fp1 = getFingerprint(DIGEST_SHA256);
+	const byteArray fp2 = otherX509->getFingerprint(DIGEST_SHA256);
 
-	return fp1 == fp2;
+	// The fingerprint is empty if it cannot be computed (for example,
+	// if the digest algorithm is disabled by the system policy)
+	return !fp1.empty() && fp1 == fp2;
 }
 
 
diff --git a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
index 8774b4a..8611df3 100644
--- a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
+++ b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
@@ -619,10 +619,12 @@ bool X509Certificate_OpenSSL::equals(const shared_ptr <const certificate>& other
 		return false;
 	}
 
-	const byteArray fp1 = getFingerprint(DIGEST_MD5);
-	const byteArray fp2 = otherX509->getFingerprint(DIGEST_MD5);
+	const byteArray fp1 = getFingerprint(DIGEST_SHA256);
+	const byteArray fp2 = otherX509->getFingerprint(DIGEST_SHA256);
 
-	return fp1 == fp2;
+	// The fingerprint is empty if it cannot be computed (for example,
+	// if the digest algorithm is disabled by the system policy)
+	return !fp1.empty() && fp1 == fp2;
 }
 
 
-- 
2.43.0


From 425edc013df09eeb1aaebd851bd68cb7622befe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:39 +0000
Subject: [PATCH 23/84] fix: maildir folder and message operations fail instead
 of crashing when the store or folder is gone

---
 src/vmime/net/maildir/maildirFolder.cpp  | 24 ++++++++++++++++++++++--
 src/vmime/net/maildir/maildirMessage.cpp |  8 ++++++++
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 9ba0ff9..f069352 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -109,6 +109,12 @@ int maildirFolder::getMode() const {
 
 const folderAttributes maildirFolder::getAttributes() {
 
+	shared_ptr <maildirStore> store = m_store.lock();
+
+	if (!store) {
+		throw exceptions::illegal_state("Store disconnected");
+	}
+
 	folderAttributes attribs;
 
 	if (m_path.isEmpty()) {
@@ -117,7 +123,7 @@ const folderAttributes maildirFolder::getAttributes() {
 		attribs.setType(folderAttributes::TYPE_CONTAINS_FOLDERS | folderAttributes::TYPE_CONTAINS_MESSAGES);
 	}
 
-	if (m_store.lock()->getFormat()->folderHasSubfolders(m_path)) {
+	if (store->getFormat()->folderHasSubfolders(m_path)) {
 		attribs.setFlags(folderAttributes::FLAG_HAS_CHILDREN);  // contains at least one sub-folder
 	}
 
@@ -292,6 +298,10 @@ void maildirFolder::scanFolder() {
 
 	shared_ptr <maildirStore> store = m_store.lock();
 
+	if (!store) {
+		throw exceptions::illegal_state("Store disconnected");
+	}
+
 	try {
 
 		m_messageCount = 0;
@@ -522,6 +532,10 @@ void maildirFolder::listFolders(std::vector <shared_ptr <folder> >& list, const
 
 	shared_ptr <maildirStore> store = m_store.lock();
 
+	if (!store) {
+		throw exceptions::illegal_state("Store disconnected");
+	}
+
 	try {
 
 		std::vector <folder::path> pathList =
@@ -1355,7 +1369,13 @@ int maildirFolder::getFetchCapabilities() const {
 
 const utility::file::path maildirFolder::getMessageFSPath(const size_t number) const {
 
-	utility::file::path curDirPath = m_store.lock()->getFormat()->
+	shared_ptr <maildirStore> store = m_store.lock();
+
+	if (!store) {
+		throw exceptions::illegal_state("Store disconnected");
+	}
+
+	utility::file::path curDirPath = store->getFormat()->
 		folderPathToFileSystemPath(m_path, maildirFormat::CUR_DIRECTORY);
 
 	return curDirPath / m_messageInfos[number - 1].path;
diff --git a/src/vmime/net/maildir/maildirMessage.cpp b/src/vmime/net/maildir/maildirMessage.cpp
index ae99c59..6f810f5 100644
--- a/src/vmime/net/maildir/maildirMessage.cpp
+++ b/src/vmime/net/maildir/maildirMessage.cpp
@@ -205,6 +205,10 @@ void maildirMessage::extractImpl(
 
 	shared_ptr <const maildirFolder> folder = m_folder.lock();
 
+	if (!folder) {
+		throw exceptions::folder_not_found();
+	}
+
 	shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
 
 	const utility::file::path path = folder->getMessageFSPath(m_num);
@@ -255,6 +259,10 @@ void maildirMessage::fetchPartHeader(const shared_ptr <messagePart>& p) {
 
 	shared_ptr <maildirFolder> folder = m_folder.lock();
 
+	if (!folder) {
+		throw exceptions::folder_not_found();
+	}
+
 	shared_ptr <maildirMessagePart> mp = dynamicCast <maildirMessagePart>(p);
 
 	shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
-- 
2.43.0


From 1880e019591408c10c5515b75c9664ba6310bdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:39 +0000
Subject: [PATCH 24/84] fix: POP3 and SMTP connections throw instead of
 crashing when their service is gone

---
 src/vmime/net/pop3/POP3Connection.cpp | 28 +++++++++++++++++++--------
 src/vmime/net/pop3/POP3Connection.hpp |  2 ++
 src/vmime/net/smtp/SMTPConnection.cpp | 28 +++++++++++++++++++--------
 src/vmime/net/smtp/SMTPConnection.hpp |  2 ++
 4 files changed, 44 insertions(+), 16 deletions(-)

diff --git a/src/vmime/net/pop3/POP3Connection.cpp b/src/vmime/net/pop3/POP3Connection.cpp
index 749f7ef..10dbd7e 100644
--- a/src/vmime/net/pop3/POP3Connection.cpp
+++ b/src/vmime/net/pop3/POP3Connection.cpp
@@ -50,11 +50,11 @@
 
 // Helpers for service properties
 #define GET_PROPERTY(type, prop) \
-	(m_store.lock()->getInfos().getPropertyValue <type>(getSession(), \
-		dynamic_cast <const POP3ServiceInfos&>(m_store.lock()->getInfos()).getProperties().prop))
+	(getStoreOrThrow()->getInfos().getPropertyValue <type>(getSession(), \
+		dynamic_cast <const POP3ServiceInfos&>(getStoreOrThrow()->getInfos()).getProperties().prop))
 #define HAS_PROPERTY(prop) \
-	(m_store.lock()->getInfos().hasProperty(getSession(), \
-		dynamic_cast <const POP3ServiceInfos&>(m_store.lock()->getInfos()).getProperties().prop))
+	(getStoreOrThrow()->getInfos().hasProperty(getSession(), \
+		dynamic_cast <const POP3ServiceInfos&>(getStoreOrThrow()->getInfos()).getProperties().prop))
 
 
 namespace vmime {
@@ -109,7 +109,7 @@ void POP3Connection::connect() {
 	const string address = GET_PROPERTY(string, PROPERTY_SERVER_ADDRESS);
 	const port_t port = GET_PROPERTY(port_t, PROPERTY_SERVER_PORT);
 
-	shared_ptr <POP3Store> store = m_store.lock();
+	shared_ptr <POP3Store> store = getStoreOrThrow();
 
 	// Create the time-out handler
 	if (store->getTimeoutHandlerFactory()) {
@@ -599,8 +599,8 @@ void POP3Connection::startTLS() {
 		}
 
 		shared_ptr <tls::TLSSession> tlsSession = tls::TLSSession::create(
-			m_store.lock()->getCertificateVerifier(),
-			m_store.lock()->getSession()->getTLSProperties()
+			getStoreOrThrow()->getCertificateVerifier(),
+			getStoreOrThrow()->getSession()->getTLSProperties()
 		);
 
 		shared_ptr <tls::TLSSocket> tlsSocket = tlsSession->getSocket(m_socket);
@@ -699,9 +699,21 @@ shared_ptr <POP3Store> POP3Connection::getStore() {
 }
 
 
+shared_ptr <POP3Store> POP3Connection::getStoreOrThrow() {
+
+	shared_ptr <POP3Store> store = m_store.lock();
+
+	if (!store) {
+		throw exceptions::illegal_state("Store not found");
+	}
+
+	return store;
+}
+
+
 shared_ptr <session> POP3Connection::getSession() {
 
-	return m_store.lock()->getSession();
+	return getStoreOrThrow()->getSession();
 }
 
 
diff --git a/src/vmime/net/pop3/POP3Connection.hpp b/src/vmime/net/pop3/POP3Connection.hpp
index 26b3f3c..68d56e9 100644
--- a/src/vmime/net/pop3/POP3Connection.hpp
+++ b/src/vmime/net/pop3/POP3Connection.hpp
@@ -104,6 +104,8 @@ private:
 
 	void internalDisconnect();
 
+	shared_ptr <POP3Store> getStoreOrThrow();
+
 
 	weak_ptr <POP3Store> m_store;
 
diff --git a/src/vmime/net/smtp/SMTPConnection.cpp b/src/vmime/net/smtp/SMTPConnection.cpp
index 72d76a2..1d477c3 100644
--- a/src/vmime/net/smtp/SMTPConnection.cpp
+++ b/src/vmime/net/smtp/SMTPConnection.cpp
@@ -54,11 +54,11 @@
 
 // Helpers for service properties
 #define GET_PROPERTY(type, prop) \
-	(m_transport.lock()->getInfos().getPropertyValue <type>(getSession(), \
-		dynamic_cast <const SMTPServiceInfos&>(m_transport.lock()->getInfos()).getProperties().prop))
+	(getTransportOrThrow()->getInfos().getPropertyValue <type>(getSession(), \
+		dynamic_cast <const SMTPServiceInfos&>(getTransportOrThrow()->getInfos()).getProperties().prop))
 #define HAS_PROPERTY(prop) \
-	(m_transport.lock()->getInfos().hasProperty(getSession(), \
-		dynamic_cast <const SMTPServiceInfos&>(m_transport.lock()->getInfos()).getProperties().prop))
+	(getTransportOrThrow()->getInfos().hasProperty(getSession(), \
+		dynamic_cast <const SMTPServiceInfos&>(getTransportOrThrow()->getInfos()).getProperties().prop))
 
 
 namespace vmime {
@@ -113,7 +113,7 @@ void SMTPConnection::connect() {
 	const string address = GET_PROPERTY(string, PROPERTY_SERVER_ADDRESS);
 	const port_t port = GET_PROPERTY(port_t, PROPERTY_SERVER_PORT);
 
-	shared_ptr <SMTPTransport> transport = m_transport.lock();
+	shared_ptr <SMTPTransport> transport = getTransportOrThrow();
 
 	// Create the time-out handler
 	if (transport->getTimeoutHandlerFactory()) {
@@ -567,8 +567,8 @@ void SMTPConnection::startTLS() {
 		}
 
 		shared_ptr <tls::TLSSession> tlsSession = tls::TLSSession::create(
-			getTransport()->getCertificateVerifier(),
-			getTransport()->getSession()->getTLSProperties()
+			getTransportOrThrow()->getCertificateVerifier(),
+			getTransportOrThrow()->getSession()->getTLSProperties()
 		);
 
 		shared_ptr <tls::TLSSocket> tlsSocket = tlsSession->getSocket(m_socket);
@@ -684,9 +684,21 @@ shared_ptr <SMTPTransport> SMTPConnection::getTransport() {
 }
 
 
+shared_ptr <SMTPTransport> SMTPConnection::getTransportOrThrow() {
+
+	shared_ptr <SMTPTransport> transport = m_transport.lock();
+
+	if (!transport) {
+		throw exceptions::illegal_state("Transport not found");
+	}
+
+	return transport;
+}
+
+
 shared_ptr <session> SMTPConnection::getSession() {
 
-	return m_transport.lock()->getSession();
+	return getTransportOrThrow()->getSession();
 }
 
 
diff --git a/src/vmime/net/smtp/SMTPConnection.hpp b/src/vmime/net/smtp/SMTPConnection.hpp
index d8a2375..8ccdd25 100644
--- a/src/vmime/net/smtp/SMTPConnection.hpp
+++ b/src/vmime/net/smtp/SMTPConnection.hpp
@@ -96,6 +96,8 @@ private:
 
 	void internalDisconnect();
 
+	shared_ptr <SMTPTransport> getTransportOrThrow();
+
 	void helo();
 	void authenticate();
 #if VMIME_HAVE_SASL_SUPPORT
-- 
2.43.0


From f892d2ecfa472249ce2d9d60dd5cc6338f0dce6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:39 +0000
Subject: [PATCH 25/84] fix: default authenticators report missing information
 when their service is gone

---
 src/vmime/security/defaultAuthenticator.cpp          | 12 ++++++++++++
 src/vmime/security/sasl/defaultSASLAuthenticator.cpp |  8 +++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/vmime/security/defaultAuthenticator.cpp b/src/vmime/security/defaultAuthenticator.cpp
index b2b249c..53d258c 100644
--- a/src/vmime/security/defaultAuthenticator.cpp
+++ b/src/vmime/security/defaultAuthenticator.cpp
@@ -52,6 +52,10 @@ const string defaultAuthenticator::getUsername() const {
 
 	shared_ptr <const net::service> service = m_service.lock();
 
+	if (!service) {
+		throw exceptions::no_auth_information();
+	}
+
 	const string prefix = service->getInfos().getPropertyPrefix();
 	const propertySet& props = service->getSession()->getProperties();
 
@@ -67,6 +71,10 @@ const string defaultAuthenticator::getPassword() const {
 
 	shared_ptr <const net::service> service = m_service.lock();
 
+	if (!service) {
+		throw exceptions::no_auth_information();
+	}
+
 	const string prefix = service->getInfos().getPropertyPrefix();
 	const propertySet& props = service->getSession()->getProperties();
 
@@ -82,6 +90,10 @@ const string defaultAuthenticator::getAccessToken() const {
 
 	shared_ptr <const net::service> service = m_service.lock();
 
+	if (!service) {
+		throw exceptions::no_auth_information();
+	}
+
 	const string prefix = service->getInfos().getPropertyPrefix();
 	const propertySet& props = service->getSession()->getProperties();
 
diff --git a/src/vmime/security/sasl/defaultSASLAuthenticator.cpp b/src/vmime/security/sasl/defaultSASLAuthenticator.cpp
index ebd7e68..cbd22f8 100644
--- a/src/vmime/security/sasl/defaultSASLAuthenticator.cpp
+++ b/src/vmime/security/sasl/defaultSASLAuthenticator.cpp
@@ -110,7 +110,13 @@ const string defaultSASLAuthenticator::getAnonymousToken() const {
 
 const string defaultSASLAuthenticator::getServiceName() const {
 
-	return m_saslSession.lock()->getServiceName();
+	shared_ptr <SASLSession> sess = m_saslSession.lock();
+
+	if (!sess) {
+		throw exceptions::no_auth_information();
+	}
+
+	return sess->getServiceName();
 }
 
 
-- 
2.43.0


From 9456472eee66875831c050172df147d082546f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:01 +0000
Subject: [PATCH 26/84] fix: IMAP CAPABILITY reply that is fatal or partial no
 longer dereferences a null tagged response

---
 src/vmime/net/imap/IMAPConnection.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index 8e792a2..0d29829 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -647,7 +647,8 @@ void IMAPConnection::fetchCapabilities() {
 
 	scoped_ptr <IMAPParser::response> resp(m_parser->readResponse(*m_tag));
 
-	if (resp->response_done->response_tagged->
+	if (!resp->isBad() &&
+	    resp->response_done->response_tagged->
 			resp_cond_state->status == IMAPParser::resp_cond_state::OK) {
 
 		processCapabilityResponseData(resp.get());
-- 
2.43.0


From 0d3017a04f74258b0f1f92883be79ea22ed32962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:01 +0000
Subject: [PATCH 27/84] fix: IMAP capability "AUTH=" without a mechanism is no
 longer parsed to nothing

---
 src/vmime/net/imap/IMAPParser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index a401ce2..3b5ac43 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -2216,7 +2216,9 @@ public:
 				size_t pos = 5;
 				auth_type.reset(parser.get <IMAPParser::auth_type>(value, &pos));
 
-				atom.reset();
+				if (auth_type) {  // no mechanism name after "AUTH=": keep it as an atom
+					atom.reset();
+				}
 			}
 
 			*currentPos = pos;
-- 
2.43.0


From e1a8211e816e5a1f77fa603e5a73a43ab8d3f04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:01 +0000
Subject: [PATCH 28/84] fix: IMAP STATUS reply without attributes is ignored
 instead of dereferencing null

---
 src/vmime/net/imap/IMAPFolderStatus.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPFolderStatus.cpp b/src/vmime/net/imap/IMAPFolderStatus.cpp
index 55df337..101d5e4 100644
--- a/src/vmime/net/imap/IMAPFolderStatus.cpp
+++ b/src/vmime/net/imap/IMAPFolderStatus.cpp
@@ -104,7 +104,8 @@ bool IMAPFolderStatus::updateFromResponse(const IMAPParser::mailbox_data& resp)
 
 	bool changed = false;
 
-	if (resp.type == IMAPParser::mailbox_data::STATUS) {
+	// The list of attributes may be empty ("STATUS" SPACE mailbox SPACE "()")
+	if (resp.type == IMAPParser::mailbox_data::STATUS && resp.status_att_list) {
 
 		for (auto &attval : resp.status_att_list->values) {
 
-- 
2.43.0


From fe52fbc5cb46c0976180513f0fad5dfe94a8c9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:32 +0000
Subject: [PATCH 29/84] fix: emailAddress reports its parsed length and the new
 position instead of a negative offset

---
 src/vmime/emailAddress.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/emailAddress.cpp b/src/vmime/emailAddress.cpp
index e687380..2730268 100644
--- a/src/vmime/emailAddress.cpp
+++ b/src/vmime/emailAddress.cpp
@@ -554,10 +554,10 @@ void emailAddress::parseImpl(
 		m_domainName = word(domainNameFromIDNA(domainPart.str()), vmime::charsets::UTF_8);
 	}
 
-	setParsedBounds(position, p - pend);
+	setParsedBounds(position, position + (p - pstart));
 
 	if (newPosition) {
-		*newPosition = p - pend;
+		*newPosition = position + (p - pstart);
 	}
 }
 
-- 
2.43.0


From 341d1facefb0107345269919905ea9dedd6e01a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:32 +0000
Subject: [PATCH 30/84] fix: disposition and path set their parsed bounds

---
 src/vmime/disposition.cpp | 2 ++
 src/vmime/path.cpp        | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/vmime/disposition.cpp b/src/vmime/disposition.cpp
index c8fa617..6df91ac 100644
--- a/src/vmime/disposition.cpp
+++ b/src/vmime/disposition.cpp
@@ -298,6 +298,8 @@ void disposition::parseImpl(
 		}
 	}
 
+	setParsedBounds(position, pos);
+
 	if (newPosition) {
 		*newPosition = pos;
 	}
diff --git a/src/vmime/path.cpp b/src/vmime/path.cpp
index a672b22..c27de1f 100644
--- a/src/vmime/path.cpp
+++ b/src/vmime/path.cpp
@@ -171,6 +171,8 @@ void path::parseImpl(
 		m_domain = addrSpec;
 	}
 
+	setParsedBounds(position, end);
+
 	if (newPosition) {
 		*newPosition = end;
 	}
-- 
2.43.0


From 88690fc5895ffef8eb5b9742eaf2a315cca4a289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:32 +0000
Subject: [PATCH 31/84] fix: parsing a component from a non-seekable stream
 reports the new position

---
 src/vmime/component.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/vmime/component.cpp b/src/vmime/component.cpp
index e5e0370..5896656 100644
--- a/src/vmime/component.cpp
+++ b/src/vmime/component.cpp
@@ -86,7 +86,16 @@ void component::parse(
 		utility::bufferedStreamCopyRange(*inputStream, ossAdapter, position, end - position);
 
 		const string buffer = oss.str();
-		parseImpl(ctx, buffer, 0, buffer.length(), NULL);
+		parseImpl(ctx, buffer, 0, buffer.length(), newPosition);
+
+		// Positions are relative to the start of the stream
+		if (position != 0) {
+			offsetParsedBounds(position);
+		}
+
+		if (newPosition) {
+			*newPosition += position;
+		}
 
 	} else {
 
-- 
2.43.0


From 04963d34b052d6685169454a4a5470d35713d64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:32 +0000
Subject: [PATCH 32/84] fix: generating a simple body reports the new line
 position

---
 src/vmime/body.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index e232648..06e997e 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -508,10 +508,6 @@ void body::generateImpl(
 			os << CRLF;
 		}
 
-		if (newLinePos) {
-			*newLinePos = 0;
-		}
-
 	// Simple body
 	} else {
 
@@ -521,6 +517,10 @@ void body::generateImpl(
 
 		contents->generate(os, getEncoding(), ctx.getMaxLineLength());
 	}
+
+	if (newLinePos) {
+		*newLinePos = 0;
+	}
 }
 
 
-- 
2.43.0


From ce1b537d6c556bc35c100c8fe98000183f4b3478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:06 +0000
Subject: [PATCH 33/84] fix: OpenSSL I/O errors are not returned as byte counts

---
 src/vmime/net/tls/openssl/TLSSocket_OpenSSL.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/tls/openssl/TLSSocket_OpenSSL.cpp b/src/vmime/net/tls/openssl/TLSSocket_OpenSSL.cpp
index 8bc3593..47b1623 100644
--- a/src/vmime/net/tls/openssl/TLSSocket_OpenSSL.cpp
+++ b/src/vmime/net/tls/openssl/TLSSocket_OpenSSL.cpp
@@ -326,6 +326,7 @@ size_t TLSSocket_OpenSSL::receiveRaw(byte_t* buffer, const size_t count) {
 		}
 
 		handleError(rc);
+		return 0;
 	}
 
 	return rc;
@@ -396,6 +397,7 @@ size_t TLSSocket_OpenSSL::sendRawNonBlocking(const byte_t* buffer, const size_t
 		}
 
 		handleError(rc);
+		return 0;
 	}
 
 	return rc;
@@ -533,7 +535,7 @@ void TLSSocket_OpenSSL::handleError(int rc) {
 		case SSL_ERROR_ZERO_RETURN:
 
 			disconnect();
-			return;
+			throw exceptions::socket_not_connected_exception();
 
 		case SSL_ERROR_SYSCALL: {
 
@@ -552,17 +554,21 @@ void TLSSocket_OpenSSL::handleError(int rc) {
 				}
 			}
 
-			break;
+			char buffer[256];
+			ERR_error_string_n(lastError, buffer, sizeof(buffer));
+			throw exceptions::tls_exception(buffer);
 		}
 
 		case SSL_ERROR_WANT_READ:
 
 			BIO_set_retry_read(SSL_get_rbio(m_ssl));
+			m_status |= STATUS_WANT_READ;
 			break;
 
 		case SSL_ERROR_WANT_WRITE:
 
 			BIO_set_retry_write(SSL_get_wbio(m_ssl));
+			m_status |= STATUS_WANT_WRITE;
 			break;
 
 		// This happens only for BIOs of type BIO_s_connect() or BIO_s_accept()
-- 
2.43.0


From eadeca2df22eeac2635f87ddd9a5952531fa9f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:06 +0000
Subject: [PATCH 34/84] fix: files and pipes are written completely

---
 .../platforms/posix/posixChildProcess.cpp     | 22 ++++++++++++++++---
 src/vmime/platforms/posix/posixFile.cpp       |  1 +
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/vmime/platforms/posix/posixChildProcess.cpp b/src/vmime/platforms/posix/posixChildProcess.cpp
index f728224..f01bb4f 100644
--- a/src/vmime/platforms/posix/posixChildProcess.cpp
+++ b/src/vmime/platforms/posix/posixChildProcess.cpp
@@ -127,9 +127,25 @@ protected:
 
 	void writeImpl(const byte_t* const data, const size_t count) {
 
-		if (::write(m_desc, data, count) == -1) {
-			const string errorMsg = getPosixErrorMessage(errno);
-			throw exceptions::system_error(errorMsg);
+		const byte_t* array = data;
+		size_t size = count;
+
+		while (size > 0) {
+
+			const ssize_t bytesWritten = ::write(m_desc, array, size);
+
+			if (bytesWritten == -1) {
+
+				if (errno == EINTR) {
+					continue;
+				}
+
+				const string errorMsg = getPosixErrorMessage(errno);
+				throw exceptions::system_error(errorMsg);
+			}
+
+			array += bytesWritten;
+			size -= bytesWritten;
 		}
 	}
 
diff --git a/src/vmime/platforms/posix/posixFile.cpp b/src/vmime/platforms/posix/posixFile.cpp
index d53719e..1113d6f 100644
--- a/src/vmime/platforms/posix/posixFile.cpp
+++ b/src/vmime/platforms/posix/posixFile.cpp
@@ -164,6 +164,7 @@ void posixFileWriterOutputStream::writeImpl(
 
 			array += ret;
 			size -= ret;
+			continue;
 		}
 
 		break;
-- 
2.43.0


From a6a4c8172f4cd54ddf1b74941f0545d65300d8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:06 +0000
Subject: [PATCH 35/84] fix: SASL socket keeps the right length of pending data
 and reports plain byte counts

---
 src/vmime/security/sasl/SASLSocket.cpp | 25 +++++--------------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/src/vmime/security/sasl/SASLSocket.cpp b/src/vmime/security/sasl/SASLSocket.cpp
index 0dbafd8..38babf7 100644
--- a/src/vmime/security/sasl/SASLSocket.cpp
+++ b/src/vmime/security/sasl/SASLSocket.cpp
@@ -183,7 +183,7 @@ size_t SASLSocket::receiveRaw(byte_t* buffer, const size_t count) {
 		std::copy(output, output + count, buffer);
 
 		m_pendingBuffer = output;
-		m_pendingLen = outputLen;
+		m_pendingLen = outputLen - count;
 		m_pendingPos = count;
 
 		return count;
@@ -236,26 +236,11 @@ void SASLSocket::sendRaw(const byte_t* buffer, const size_t count) {
 
 size_t SASLSocket::sendRawNonBlocking(const byte_t* buffer, const size_t count) {
 
-	byte_t* output = 0;
-	size_t outputLen = 0;
-
-	m_session->getMechanism()->encode(m_session, buffer, count, &output, &outputLen);
-
-	size_t bytesSent = 0;
-
-	try {
-
-		bytesSent = m_wrapped->sendRawNonBlocking(output, outputLen);
-
-	} catch (...) {
-
-		delete [] output;
-		throw;
-	}
-
-	delete [] output;
+	// Encoded data can not be sent partially: the number of bytes sent by
+	// the wrapped socket would not be a number of bytes of 'buffer'
+	sendRaw(buffer, count);
 
-	return bytesSent;
+	return count;
 }
 
 
-- 
2.43.0


From c32af32d6f30b9a20186e39e4eeec126aca10298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:41 +0000
Subject: [PATCH 36/84] fix: the timeout handler is consulted while waiting
 during TLS handshakes, TLS writes and connection attempts

---
 src/vmime/net/imap/IMAPParser.hpp             |  2 ++
 src/vmime/net/pop3/POP3Response.cpp           |  2 ++
 src/vmime/net/smtp/SMTPResponse.cpp           |  5 ++++
 src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp | 30 +++++++++++++++++++
 .../net/tls/openssl/TLSSocket_OpenSSL.cpp     | 24 +++++++++++++--
 src/vmime/platforms/posix/posixSocket.cpp     | 11 ++++---
 6 files changed, 67 insertions(+), 7 deletions(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index 3b5ac43..d782c86 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -4901,6 +4901,8 @@ public:
 				if (!toh->handleTimeOut()) {
 					throw exceptions::operation_timed_out();
 				}
+
+				toh->resetTimeOut();
 			}
 
 			// We have received data: reset the time-out counter
diff --git a/src/vmime/net/pop3/POP3Response.cpp b/src/vmime/net/pop3/POP3Response.cpp
index 3856c74..4e3e5ae 100644
--- a/src/vmime/net/pop3/POP3Response.cpp
+++ b/src/vmime/net/pop3/POP3Response.cpp
@@ -313,6 +313,8 @@ size_t POP3Response::readResponseImpl(
 			if (!m_timeoutHandler->handleTimeOut()) {
 				throw exceptions::operation_timed_out();
 			}
+
+			m_timeoutHandler->resetTimeOut();
 		}
 
 		// Receive data from the socket
diff --git a/src/vmime/net/smtp/SMTPResponse.cpp b/src/vmime/net/smtp/SMTPResponse.cpp
index 1208e0e..5049482 100644
--- a/src/vmime/net/smtp/SMTPResponse.cpp
+++ b/src/vmime/net/smtp/SMTPResponse.cpp
@@ -184,6 +184,11 @@ const string SMTPResponse::readResponseLine() {
 			continue;
 		}
 
+		// We have received data: reset the time-out counter
+		if (m_timeoutHandler) {
+			m_timeoutHandler->resetTimeOut();
+		}
+
 		currentBuffer += receiveBuffer;
 	}
 }
diff --git a/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp b/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp
index 54fbdaf..d80f1bc 100644
--- a/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp
+++ b/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp
@@ -229,6 +229,12 @@ void TLSSocket_GnuTLS::sendRaw(const byte_t* buffer, const size_t count) {
 
 	m_status &= ~(STATUS_WANT_WRITE | STATUS_WANT_READ);
 
+	shared_ptr <timeoutHandler> toHandler = m_wrapped->getTimeoutHandler();
+
+	if (toHandler) {
+		toHandler->resetTimeOut();
+	}
+
 	for (size_t size = count ; size > 0 ; ) {
 
 		resetException();
@@ -250,6 +256,16 @@ void TLSSocket_GnuTLS::sendRaw(const byte_t* buffer, const size_t count) {
 					m_wrapped->waitForWrite();
 				}
 
+				// Check whether the time-out delay is elapsed
+				if (toHandler && toHandler->isTimeOut()) {
+
+					if (!toHandler->handleTimeOut()) {
+						throw exceptions::operation_timed_out();
+					}
+
+					toHandler->resetTimeOut();
+				}
+
 				continue;
 			}
 
@@ -259,6 +275,10 @@ void TLSSocket_GnuTLS::sendRaw(const byte_t* buffer, const size_t count) {
 
 			buffer += ret;
 			size -= ret;
+
+			if (toHandler) {
+				toHandler->resetTimeOut();
+			}
 		}
 	}
 }
@@ -348,6 +368,16 @@ void TLSSocket_GnuTLS::handshake() {
 					TLSSession_GnuTLS::throwTLSException("gnutls_handshake", ret);
 				}
 
+				// Check whether the time-out delay is elapsed
+				if (toHandler && toHandler->isTimeOut()) {
+
+					if (!toHandler->handleTimeOut()) {
+						throw exceptions::operation_timed_out();
+					}
+
+					toHandler->resetTimeOut();
+				}
+
 			} else {
 
 				// Successful handshake
diff --git a/src/vmime/net/tls/openssl/TLSSocket_OpenSSL.cpp b/src/vmime/net/tls/openssl/TLSSocket_OpenSSL.cpp
index 47b1623..3a12352 100644
--- a/src/vmime/net/tls/openssl/TLSSocket_OpenSSL.cpp
+++ b/src/vmime/net/tls/openssl/TLSSocket_OpenSSL.cpp
@@ -341,6 +341,12 @@ void TLSSocket_OpenSSL::sendRaw(const byte_t* buffer, const size_t count) {
 
 	m_status &= ~(STATUS_WANT_WRITE | STATUS_WANT_READ);
 
+	shared_ptr <timeoutHandler> toHandler = m_wrapped->getTimeoutHandler();
+
+	if (toHandler) {
+		toHandler->resetTimeOut();
+	}
+
 	for (size_t size = count ; size > 0 ; ) {
 
 		ERR_clear_error();
@@ -352,18 +358,30 @@ void TLSSocket_OpenSSL::sendRaw(const byte_t* buffer, const size_t count) {
 
 			if (error == SSL_ERROR_WANT_READ) {
 				m_wrapped->waitForRead();
-				continue;
 			} else if (error == SSL_ERROR_WANT_WRITE) {
 				m_wrapped->waitForWrite();
-				continue;
+			} else {
+				handleError(rc);
 			}
 
-			handleError(rc);
+			// Check whether the time-out delay is elapsed
+			if (toHandler && toHandler->isTimeOut()) {
+
+				if (!toHandler->handleTimeOut()) {
+					throw exceptions::operation_timed_out();
+				}
+
+				toHandler->resetTimeOut();
+			}
 
 		} else {
 
 			buffer += rc;
 			size -= rc;
+
+			if (toHandler) {
+				toHandler->resetTimeOut();
+			}
 		}
 	}
 }
diff --git a/src/vmime/platforms/posix/posixSocket.cpp b/src/vmime/platforms/posix/posixSocket.cpp
index c0ce0cf..36f95e5 100644
--- a/src/vmime/platforms/posix/posixSocket.cpp
+++ b/src/vmime/platforms/posix/posixSocket.cpp
@@ -254,7 +254,7 @@ void posixSocket::connect(const vmime::string& address, const vmime::port_t port
 						break;
 
 					// Error
-					} else if (ret < -1) {
+					} else if (ret < 0) {
 
 						if (errno != EAGAIN && errno != EINTR) {
 
@@ -270,8 +270,10 @@ void posixSocket::connect(const vmime::string& address, const vmime::port_t port
 						if (!m_timeoutHandler->handleTimeOut()) {
 
 							// Cancel connection
-							connectErrno = ETIMEDOUT;
-							break;
+							::close(sock);
+							::freeaddrinfo(addrInfo);
+
+							throw exceptions::operation_timed_out();
 
 						} else {
 
@@ -288,7 +290,8 @@ void posixSocket::connect(const vmime::string& address, const vmime::port_t port
 					gettimeofday(&curTime, /* timezone */ NULL);
 
 					if (curAddrInfo->ai_next != NULL &&
-						curTime.tv_usec - startTime.tv_usec >= tryNextTimeout * 1000) {
+						(curTime.tv_sec - startTime.tv_sec) * 1000 +
+						(curTime.tv_usec - startTime.tv_usec) / 1000 >= tryNextTimeout) {
 
 						connectErrno = ETIMEDOUT;
 						break;
-- 
2.43.0


From 46fefd7e1a87505647dd6c5cee51845aa34acc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:02 +0000
Subject: [PATCH 37/84] fix: the SASL initial response is not leaked when its
 encoding fails

---
 src/vmime/net/imap/IMAPConnection.cpp | 13 ++++++++++++-
 src/vmime/net/pop3/POP3Connection.cpp | 13 ++++++++++++-
 src/vmime/net/smtp/SMTPConnection.cpp | 13 ++++++++++++-
 3 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index 0d29829..3bb7653 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -404,7 +404,18 @@ void IMAPConnection::authenticateSASL() {
 
 			saslSession->evaluateChallenge(NULL, 0, &initialResp, &initialRespLen);
 
-			string encodedInitialResp(saslContext->encodeB64(initialResp, initialRespLen));
+			string encodedInitialResp;
+
+			try {
+
+				encodedInitialResp = saslContext->encodeB64(initialResp, initialRespLen);
+
+			} catch (...) {
+
+				delete [] initialResp;
+				throw;
+			}
+
 			delete [] initialResp;
 
 			if (encodedInitialResp.empty()) {
diff --git a/src/vmime/net/pop3/POP3Connection.cpp b/src/vmime/net/pop3/POP3Connection.cpp
index 10dbd7e..2caee80 100644
--- a/src/vmime/net/pop3/POP3Connection.cpp
+++ b/src/vmime/net/pop3/POP3Connection.cpp
@@ -473,7 +473,18 @@ void POP3Connection::authenticateSASL() {
 
 			saslSession->evaluateChallenge(NULL, 0, &initialResp, &initialRespLen);
 
-			string encodedInitialResp(saslContext->encodeB64(initialResp, initialRespLen));
+			string encodedInitialResp;
+
+			try {
+
+				encodedInitialResp = saslContext->encodeB64(initialResp, initialRespLen);
+
+			} catch (...) {
+
+				delete [] initialResp;
+				throw;
+			}
+
 			delete [] initialResp;
 
 			if (encodedInitialResp.empty()) {
diff --git a/src/vmime/net/smtp/SMTPConnection.cpp b/src/vmime/net/smtp/SMTPConnection.cpp
index 1d477c3..5836feb 100644
--- a/src/vmime/net/smtp/SMTPConnection.cpp
+++ b/src/vmime/net/smtp/SMTPConnection.cpp
@@ -440,7 +440,18 @@ void SMTPConnection::authenticateSASL() {
 
 			saslSession->evaluateChallenge(NULL, 0, &initialResp, &initialRespLen);
 
-			string encodedInitialResp(saslContext->encodeB64(initialResp, initialRespLen));
+			string encodedInitialResp;
+
+			try {
+
+				encodedInitialResp = saslContext->encodeB64(initialResp, initialRespLen);
+
+			} catch (...) {
+
+				delete [] initialResp;
+				throw;
+			}
+
 			delete [] initialResp;
 
 			if (encodedInitialResp.empty()) {
-- 
2.43.0


From 8bd488ca0b34a6f7cbd9d300e89d349fbe1da017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:02 +0000
Subject: [PATCH 38/84] fix: a TLS session whose construction fails releases
 the GnuTLS session

---
 .../net/tls/gnutls/TLSSession_GnuTLS.cpp      | 22 +++++++++++--------
 .../net/tls/gnutls/TLSSession_GnuTLS.hpp      |  2 ++
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/vmime/net/tls/gnutls/TLSSession_GnuTLS.cpp b/src/vmime/net/tls/gnutls/TLSSession_GnuTLS.cpp
index 8586537..73d1693 100644
--- a/src/vmime/net/tls/gnutls/TLSSession_GnuTLS.cpp
+++ b/src/vmime/net/tls/gnutls/TLSSession_GnuTLS.cpp
@@ -155,6 +155,7 @@ TLSSession_GnuTLS::TLSSession_GnuTLS(
 	m_gnutlsSession = new gnutls_session_t;
 
 	if (gnutls_init(m_gnutlsSession, GNUTLS_CLIENT) != 0) {
+		delete m_gnutlsSession;
 		throw std::bad_alloc();
 	}
 
@@ -166,6 +167,7 @@ TLSSession_GnuTLS::TLSSession_GnuTLS(
 	if ((res = gnutls_priority_set_direct
 		(*m_gnutlsSession, m_props->getCipherSuite().c_str(), NULL)) != 0) {
 
+		destroySession();
 		throwTLSException("gnutls_priority_set_direct", res);
 	}
 
@@ -181,6 +183,7 @@ TLSSession_GnuTLS::TLSSession_GnuTLS(
 	res = gnutls_certificate_type_set_priority(*m_gnutlsSession, certTypePriority);
 
 	if (res < 0) {
+		destroySession();
 		throwTLSException("gnutls_certificate_type_set_priority", res);
 	}
 
@@ -190,6 +193,7 @@ TLSSession_GnuTLS::TLSSession_GnuTLS(
 	res = gnutls_protocol_set_priority(*m_gnutlsSession, protoPriority);
 
 	if (res < 0) {
+		destroySession();
 		throwTLSException("gnutls_certificate_type_set_priority", res);
 	}
 
@@ -255,7 +259,8 @@ TLSSession_GnuTLS::TLSSession_GnuTLS(
 
 
 TLSSession_GnuTLS::TLSSession_GnuTLS(const TLSSession_GnuTLS&)
-	: TLSSession() {
+	: TLSSession(),
+	  m_gnutlsSession(NULL) {
 
 	// Not used
 }
@@ -263,19 +268,18 @@ TLSSession_GnuTLS::TLSSession_GnuTLS(const TLSSession_GnuTLS&)
 
 TLSSession_GnuTLS::~TLSSession_GnuTLS() {
 
-	try {
+	destroySession();
+}
 
-		if (m_gnutlsSession) {
 
-			gnutls_deinit(*m_gnutlsSession);
+void TLSSession_GnuTLS::destroySession() {
 
-			delete m_gnutlsSession;
-			m_gnutlsSession = NULL;
-		}
+	if (m_gnutlsSession) {
 
-	} catch (...) {
+		gnutls_deinit(*m_gnutlsSession);
 
-		// Don't throw in destructor
+		delete m_gnutlsSession;
+		m_gnutlsSession = NULL;
 	}
 }
 
diff --git a/src/vmime/net/tls/gnutls/TLSSession_GnuTLS.hpp b/src/vmime/net/tls/gnutls/TLSSession_GnuTLS.hpp
index 2a7f9d7..09a4f1f 100644
--- a/src/vmime/net/tls/gnutls/TLSSession_GnuTLS.hpp
+++ b/src/vmime/net/tls/gnutls/TLSSession_GnuTLS.hpp
@@ -68,6 +68,8 @@ private:
 
 	TLSSession_GnuTLS(const TLSSession_GnuTLS&);
 
+	void destroySession();
+
 	static void throwTLSException(const string& fname, const int code);
 
 
-- 
2.43.0


From 6d087e4d4a59a35bae3f37d0512df97195ef32df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:02 +0000
Subject: [PATCH 39/84] fix: one BIO method is shared by all OpenSSL sockets,
 and reconnecting releases the previous SSL handle

---
 .../net/tls/openssl/TLSSocket_OpenSSL.cpp     | 48 ++++++++++++++-----
 .../net/tls/openssl/TLSSocket_OpenSSL.hpp     |  2 +
 2 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/src/vmime/net/tls/openssl/TLSSocket_OpenSSL.cpp b/src/vmime/net/tls/openssl/TLSSocket_OpenSSL.cpp
index 3a12352..d74f3be 100644
--- a/src/vmime/net/tls/openssl/TLSSocket_OpenSSL.cpp
+++ b/src/vmime/net/tls/openssl/TLSSocket_OpenSSL.cpp
@@ -119,9 +119,39 @@ TLSSocket_OpenSSL::~TLSSocket_OpenSSL() {
 }
 
 
+#if OPENSSL_VERSION_NUMBER >= 0x10100000L
+
+// static
+BIO_METHOD* TLSSocket_OpenSSL::getCustomBIOMethod() {
+
+	BIO_METHOD* bioMeth = BIO_meth_new(BIO_TYPE_SOURCE_SINK | BIO_get_new_index(), "vmime::socket glue");
+
+	if (bioMeth) {
+
+		BIO_meth_set_write(bioMeth, TLSSocket_OpenSSL::bio_write);
+		BIO_meth_set_read(bioMeth, TLSSocket_OpenSSL::bio_read);
+		BIO_meth_set_puts(bioMeth, TLSSocket_OpenSSL::bio_puts);
+		BIO_meth_set_ctrl(bioMeth, TLSSocket_OpenSSL::bio_ctrl);
+		BIO_meth_set_create(bioMeth, TLSSocket_OpenSSL::bio_create);
+		BIO_meth_set_destroy(bioMeth, TLSSocket_OpenSSL::bio_destroy);
+	}
+
+	return bioMeth;
+}
+
+#endif
+
+
 void TLSSocket_OpenSSL::createSSLHandle() {
 
 	if (m_wrapped->isConnected()) {
+
+		// Release the handle of a previous connection
+		if (m_ssl) {
+			SSL_free(m_ssl);
+			m_ssl = 0;
+		}
+
 		string peerName = getPeerName();
 		
 		if (peerName.empty()) {
@@ -131,28 +161,17 @@ void TLSSocket_OpenSSL::createSSLHandle() {
 #if OPENSSL_VERSION_NUMBER < 0x10100000L
 
 		BIO* sockBio = BIO_new(&sm_customBIOMethod);
-		sockBio->ptr = this;
-		sockBio->init = 1;
 
 #else
 
-		BIO_METHOD* bioMeth = BIO_meth_new(BIO_TYPE_SOURCE_SINK | BIO_get_new_index(), "vmime::socket glue");
+		// Shared by all the sockets, as it must outlive the BIOs that use it
+		static BIO_METHOD* bioMeth = getCustomBIOMethod();
 
 		if (!bioMeth) {
-			BIO_meth_free(bioMeth);
 			throw exceptions::tls_exception("BIO_meth_new() failed");
 		}
 
-		BIO_meth_set_write(bioMeth, TLSSocket_OpenSSL::bio_write);
-		BIO_meth_set_read(bioMeth, TLSSocket_OpenSSL::bio_read);
-		BIO_meth_set_puts(bioMeth, TLSSocket_OpenSSL::bio_puts);
-		BIO_meth_set_ctrl(bioMeth, TLSSocket_OpenSSL::bio_ctrl);
-		BIO_meth_set_create(bioMeth, TLSSocket_OpenSSL::bio_create);
-		BIO_meth_set_destroy(bioMeth, TLSSocket_OpenSSL::bio_destroy);
-
 		BIO* sockBio = BIO_new(bioMeth);
-		BIO_set_data(sockBio, this);
-		BIO_set_init(sockBio, 1);
 
 #endif
 
@@ -160,6 +179,9 @@ void TLSSocket_OpenSSL::createSSLHandle() {
 			throw exceptions::tls_exception("BIO_new() failed");
 		}
 
+		BIO_set_data(sockBio, this);
+		BIO_set_init(sockBio, 1);
+
 		m_ssl = SSL_new(m_session->getContext());
 
 		if (!m_ssl) {
diff --git a/src/vmime/net/tls/openssl/TLSSocket_OpenSSL.hpp b/src/vmime/net/tls/openssl/TLSSocket_OpenSSL.hpp
index 62fd5f0..03c142b 100644
--- a/src/vmime/net/tls/openssl/TLSSocket_OpenSSL.hpp
+++ b/src/vmime/net/tls/openssl/TLSSocket_OpenSSL.hpp
@@ -98,6 +98,8 @@ private:
 
 	static BIO_METHOD sm_customBIOMethod;
 
+	static BIO_METHOD* getCustomBIOMethod();
+
 	static int bio_write(BIO* bio, const char* buf, int len);
 	static int bio_read(BIO* bio, char* buf, int len);
 	static int bio_puts(BIO* bio, const char* str);
-- 
2.43.0


From 04d3b5019cd52f6682d599dc91d537473755c0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:02 +0000
Subject: [PATCH 40/84] fix: a child process that could not be forked does not
 keep closed descriptors

---
 src/vmime/platforms/posix/posixChildProcess.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vmime/platforms/posix/posixChildProcess.cpp b/src/vmime/platforms/posix/posixChildProcess.cpp
index f01bb4f..9563fb4 100644
--- a/src/vmime/platforms/posix/posixChildProcess.cpp
+++ b/src/vmime/platforms/posix/posixChildProcess.cpp
@@ -274,6 +274,8 @@ void posixChildProcess::start(const std::vector <string>& args, const int flags)
 	// Construct C-style argument array
 	const char** argv = new const char*[args.size() + 2];
 
+	delete [] m_argArray;  // if a previous call has failed
+
 	m_argVector = args;  // for c_str() pointer to remain valid
 	m_argArray = argv;   // to free later
 
@@ -314,6 +316,9 @@ void posixChildProcess::start(const std::vector <string>& args, const int flags)
 		close(fd[0]);
 		close(fd[1]);
 
+		m_pipe[0] = 0;
+		m_pipe[1] = 0;
+
 		throw exceptions::system_error(errorMsg);
 
 	} else if (pid == 0) {  // child process
-- 
2.43.0


From 26906e58f1edec46658b9f2799560ce1f9156a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:02 +0000
Subject: [PATCH 41/84] fix: descriptors are closed when creating a file or
 opening a directory fails

---
 src/vmime/platforms/posix/posixFile.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/vmime/platforms/posix/posixFile.cpp b/src/vmime/platforms/posix/posixFile.cpp
index 1113d6f..1f4ec81 100644
--- a/src/vmime/platforms/posix/posixFile.cpp
+++ b/src/vmime/platforms/posix/posixFile.cpp
@@ -66,7 +66,15 @@ posixFileIterator::posixFileIterator(
 		posixFileSystemFactory::reportError(path, errno);
 	}
 
-	getNextElement();
+	try {
+
+		getNextElement();
+
+	} catch (...) {
+
+		::closedir(m_dir);
+		throw;
+	}
 }
 
 
@@ -352,7 +360,12 @@ void posixFile::createFile() {
 	}
 
 	if (::fsync(fd) == -1) {
-		posixFileSystemFactory::reportError(m_path, errno);
+
+		const int err = errno;
+
+		::close(fd);
+
+		posixFileSystemFactory::reportError(m_path, err);
 	}
 
 	if (::close(fd) == -1) {
-- 
2.43.0


From d043e13dbbc100b6da1566985686c084e194bb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:02 +0000
Subject: [PATCH 42/84] fix: an abandoned name resolution does not use the
 stack of a function that has returned

---
 src/vmime/platforms/posix/posixSocket.cpp | 124 +++++++++++++++++-----
 src/vmime/platforms/posix/posixSocket.hpp |   5 +
 2 files changed, 101 insertions(+), 28 deletions(-)

diff --git a/src/vmime/platforms/posix/posixSocket.cpp b/src/vmime/platforms/posix/posixSocket.cpp
index 36f95e5..095f51d 100644
--- a/src/vmime/platforms/posix/posixSocket.cpp
+++ b/src/vmime/platforms/posix/posixSocket.cpp
@@ -399,12 +399,94 @@ void posixSocket::connect(const vmime::string& address, const vmime::port_t port
 }
 
 
+#if VMIME_HAVE_GETADDRINFO_A
+
+// Data used by an asynchronous resolving operation. As the resolver may
+// go on using it once we have stopped waiting, it can not be on the stack.
+
+struct posixSocket::resolveRequest {
+
+	resolveRequest(const vmime::string& address_, const vmime::port_t port)
+		: address(address_) {
+
+		snprintf(portStr, sizeof(portStr), "%u", static_cast <unsigned int>(port));
+
+		memset(&hints, 0, sizeof(hints));
+
+		hints.ai_flags = AI_CANONNAME | AI_NUMERICSERV;
+		hints.ai_family = PF_UNSPEC;
+		hints.ai_socktype = SOCK_STREAM;
+
+		memset(&gai, 0, sizeof(gai));
+
+		gai.ar_name = address.c_str();
+		gai.ar_service = portStr;
+		gai.ar_request = &hints;
+	}
+
+	vmime::string address;
+	char portStr[16];
+	struct ::addrinfo hints;
+	struct ::gaicb gai;
+};
+
+#endif  // VMIME_HAVE_GETADDRINFO_A
+
+
 void posixSocket::resolve(
 	struct ::addrinfo** addrInfo,
 	const vmime::string& address,
 	const vmime::port_t port
 ) {
 
+#if VMIME_HAVE_GETADDRINFO_A
+
+	// If getaddrinfo_a() is available, use asynchronous resolving to allow
+	// the timeout handler to cancel the operation
+
+	resolveRequest* request = new resolveRequest(address, port);
+
+	struct ::gaicb* gaiRequests = &request->gai;
+	int gaiError;
+
+	if ((gaiError = getaddrinfo_a(GAI_NOWAIT, &gaiRequests, 1, NULL)) != 0) {
+
+		delete request;
+
+		throw vmime::exceptions::connection_error(
+			"getaddrinfo_a() failed: " + std::string(gai_strerror(gaiError))
+		);
+	}
+
+	try {
+
+		waitForResolution(request);
+
+	} catch (...) {
+
+		const int ret = gai_cancel(&request->gai);
+
+		if (ret == EAI_CANCELED || ret == EAI_ALLDONE) {
+
+			if (request->gai.ar_result) {
+				::freeaddrinfo(request->gai.ar_result);
+			}
+
+			delete request;
+		}
+
+		// Otherwise, the request is still used by the resolver and there is
+		// no way to know when it will be finished: it can not be deleted
+
+		throw;
+	}
+
+	*addrInfo = request->gai.ar_result;
+
+	delete request;
+
+#else  // !VMIME_HAVE_GETADDRINFO_A
+
 	char portStr[16];
 	snprintf(portStr, sizeof(portStr), "%u", static_cast <unsigned int>(port));
 
@@ -416,27 +498,23 @@ void posixSocket::resolve(
 	hints.ai_family = PF_UNSPEC;
 	hints.ai_socktype = SOCK_STREAM;
 
-#if VMIME_HAVE_GETADDRINFO_A
+	if (::getaddrinfo(address.c_str(), portStr, &hints, addrInfo) != 0) {
 
-	// If getaddrinfo_a() is available, use asynchronous resolving to allow
-	// the timeout handler to cancel the operation
+		// Error: cannot resolve address
+		throw vmime::exceptions::connection_error("Cannot resolve address.");
+	}
 
-	struct ::gaicb gaiRequest;
-	memset(&gaiRequest, 0, sizeof(gaiRequest));
+#endif  // VMIME_HAVE_GETADDRINFO_A
 
-	gaiRequest.ar_name = address.c_str();
-	gaiRequest.ar_service = portStr;
-	gaiRequest.ar_request = &hints;
+}
 
-	struct ::gaicb* gaiRequests = &gaiRequest;
-	int gaiError;
 
-	if ((gaiError = getaddrinfo_a(GAI_NOWAIT, &gaiRequests, 1, NULL)) != 0) {
+#if VMIME_HAVE_GETADDRINFO_A
 
-		throw vmime::exceptions::connection_error(
-			"getaddrinfo_a() failed: " + std::string(gai_strerror(gaiError))
-		);
-	}
+void posixSocket::waitForResolution(resolveRequest* request) {
+
+	struct ::gaicb* gaiRequests = &request->gai;
+	int gaiError;
 
 	if (m_timeoutHandler) {
 		m_timeoutHandler->resetTimeOut();
@@ -452,7 +530,7 @@ void posixSocket::resolve(
 
 		if (gaiError == 0 || gaiError == EAI_ALLDONE) {
 
-			const int ret = gai_error(&gaiRequest);
+			const int ret = gai_error(&request->gai);
 
 			if (ret != 0) {
 
@@ -462,7 +540,6 @@ void posixSocket::resolve(
 
 			} else {
 
-				*addrInfo = gaiRequest.ar_result;
 				break;
 			}
 
@@ -470,7 +547,7 @@ void posixSocket::resolve(
 
 			if (gaiError == EAI_SYSTEM) {
 
-				const int ret = gai_error(&gaiRequest);
+				const int ret = gai_error(&request->gai);
 
 				if (ret != EAI_INPROGRESS && errno != 0) {
 
@@ -503,19 +580,10 @@ void posixSocket::resolve(
 			}
 		}
 	}
-
-#else  // !VMIME_HAVE_GETADDRINFO_A
-
-	if (::getaddrinfo(address.c_str(), portStr, &hints, addrInfo) != 0) {
-
-		// Error: cannot resolve address
-		throw vmime::exceptions::connection_error("Cannot resolve address.");
-	}
+}
 
 #endif  // VMIME_HAVE_GETADDRINFO_A
 
-}
-
 
 bool posixSocket::isConnected() const {
 
diff --git a/src/vmime/platforms/posix/posixSocket.hpp b/src/vmime/platforms/posix/posixSocket.hpp
index 7d732b7..cec42b3 100644
--- a/src/vmime/platforms/posix/posixSocket.hpp
+++ b/src/vmime/platforms/posix/posixSocket.hpp
@@ -80,6 +80,11 @@ protected:
 
 	void resolve(struct ::addrinfo** addrInfo, const vmime::string& address, const vmime::port_t port);
 
+#if VMIME_HAVE_GETADDRINFO_A
+	struct resolveRequest;
+	void waitForResolution(resolveRequest* request);
+#endif // VMIME_HAVE_GETADDRINFO_A
+
 	bool waitForData(const bool read, const bool write, const int msecs);
 
 	static void throwSocketError(const int err);
-- 
2.43.0


From f5ff1e55e3abd81facf291769eaf1a6d8e631d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:02 +0000
Subject: [PATCH 43/84] fix: certificate verification and writing release their
 OpenSSL objects on errors

---
 .../cert/openssl/X509Certificate_OpenSSL.cpp  | 31 +++++++++++++++----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
index 8611df3..798046d 100644
--- a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
+++ b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
@@ -279,8 +279,17 @@ void X509Certificate_OpenSSL::write(
 			goto err;
 		}
 
-		os.write(reinterpret_cast <byte_t*>(out), dataSize);
-		os.flush();
+		try {
+
+			os.write(reinterpret_cast <byte_t*>(out), dataSize);
+			os.flush();
+
+		} catch (...) {
+
+			OPENSSL_free(out);
+			throw;
+		}
+
 		OPENSSL_free(out);
 
 	} else if (format == FORMAT_PEM) {
@@ -293,8 +302,18 @@ void X509Certificate_OpenSSL::write(
 		}
 
 		dataSize = BIO_get_mem_data(membio, &out);
-		os.write(reinterpret_cast <byte_t*>(out), dataSize);
-		os.flush();
+
+		try {
+
+			os.write(reinterpret_cast <byte_t*>(out), dataSize);
+			os.flush();
+
+		} catch (...) {
+
+			BIO_vfree(membio);
+			throw;
+		}
+
 		BIO_vfree(membio);
 
 	} else {
@@ -401,9 +420,9 @@ bool X509Certificate_OpenSSL::verify(const shared_ptr <const X509Certificate>& c
 				}
 
 				//X509_verify_cert_error_string(vrfy_ctx->error)
-
-				X509_STORE_CTX_free(verifyCtx);
 			}
+
+			X509_STORE_CTX_free(verifyCtx);
 		}
 
 		X509_STORE_free(store);
-- 
2.43.0


From c3af6c022d6020da33097ddff23a81fa507c2838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:02 +0000
Subject: [PATCH 44/84] fix: decoding a text does not leak it when its words
 cannot be parsed

---
 src/vmime/text.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vmime/text.cpp b/src/vmime/text.cpp
index b11d25a..5c1b783 100644
--- a/src/vmime/text.cpp
+++ b/src/vmime/text.cpp
@@ -390,13 +390,13 @@ text* text::decodeAndUnfold(const string& in, text* generateInExisting) {
 
 text* text::decodeAndUnfold(parsingContext& ctx, const string& in, text* generateInExisting) {
 
+	std::vector <shared_ptr <word> > words = word::parseMultiple(ctx, in, 0, in.length(), NULL);
+	fixBrokenWords(words);
+
 	text* out = generateInExisting ? generateInExisting : new text();
 
 	out->removeAllWords();
 
-	std::vector <shared_ptr <word> > words = word::parseMultiple(ctx, in, 0, in.length(), NULL);
-	fixBrokenWords(words);
-
 	copy_vector(words, out->m_words);
 
 	return out;
-- 
2.43.0


From 5086ad3b9ebb0dc33e3859246a4cca9deb12d81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:41 +0000
Subject: [PATCH 45/84] fix: IMAP parser does not leak the token when reading
 it fails

---
 src/vmime/net/imap/IMAPParser.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index d782c86..11b0cf7 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -4729,18 +4729,19 @@ private:
 	template <class TYPE>
 	TYPE* internalGet(component* resp, string& line, size_t* currentPos) {
 
+		// The token is freed if it is not returned (eg. if reading a literal fails)
+		std::unique_ptr <component> token(resp);
+
 		const size_t oldPos = *currentPos;
 
-		if (!resp->parse(*this, line, currentPos)) {
+		if (!token->parse(*this, line, currentPos)) {
 
 			*currentPos = oldPos;
 
-			delete resp;
-
 			return NULL;
 		}
 
-		return static_cast <TYPE*>(resp);
+		return static_cast <TYPE*>(token.release());
 	}
 
 	const string lastLine() const {
-- 
2.43.0


From e67e833e7106d609d4e78e3597e652aa67576914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:23 +0000
Subject: [PATCH 46/84] fix: user names, passwords and SASL initial responses
 are not sent to the tracer

---
 src/vmime/net/imap/IMAPCommand.cpp    |  6 +++++-
 src/vmime/net/imap/IMAPConnection.cpp |  2 +-
 src/vmime/net/pop3/POP3Command.cpp    | 12 ++++++++++--
 src/vmime/net/smtp/SMTPCommand.cpp    |  6 +++++-
 4 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/vmime/net/imap/IMAPCommand.cpp b/src/vmime/net/imap/IMAPCommand.cpp
index 256924e..b77f120 100644
--- a/src/vmime/net/imap/IMAPCommand.cpp
+++ b/src/vmime/net/imap/IMAPCommand.cpp
@@ -81,7 +81,11 @@ shared_ptr <IMAPCommand> IMAPCommand::AUTHENTICATE(const string& mechName, const
 	cmd.imbue(std::locale::classic());
 	cmd << "AUTHENTICATE " << mechName << " " << initialResponse;
 
-	return createCommand(cmd.str());
+	std::ostringstream trace;
+	trace.imbue(std::locale::classic());
+	trace << "AUTHENTICATE " << mechName << " {initial response}";
+
+	return createCommand(cmd.str(), trace.str());
 }
 
 
diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index 3bb7653..4d31f81 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -821,7 +821,7 @@ void IMAPConnection::sendCommand(const shared_ptr <IMAPCommand>& cmd) {
 	if (m_tracer) {
 
 		std::ostringstream oss;
-		oss << string(*m_tag) << " " << cmd->getText();
+		oss << string(*m_tag) << " " << cmd->getTraceText();
 
 		m_tracer->traceSend(oss.str());
 	}
diff --git a/src/vmime/net/pop3/POP3Command.cpp b/src/vmime/net/pop3/POP3Command.cpp
index 0e79888..92d59e0 100644
--- a/src/vmime/net/pop3/POP3Command.cpp
+++ b/src/vmime/net/pop3/POP3Command.cpp
@@ -81,7 +81,11 @@ shared_ptr <POP3Command> POP3Command::AUTH(const string& mechName, const string&
 	cmd.imbue(std::locale::classic());
 	cmd << "AUTH " << mechName << " " << initialResponse;
 
-	return createCommand(cmd.str());
+	std::ostringstream trace;
+	trace.imbue(std::locale::classic());
+	trace << "AUTH " << mechName << " {initial response}";
+
+	return createCommand(cmd.str(), trace.str());
 }
 
 
@@ -99,7 +103,11 @@ shared_ptr <POP3Command> POP3Command::APOP(const string& username, const string&
 	cmd.imbue(std::locale::classic());
 	cmd << "APOP " << username << " " << digest;
 
-	return createCommand(cmd.str());
+	std::ostringstream trace;
+	trace.imbue(std::locale::classic());
+	trace << "APOP {username} {digest}";
+
+	return createCommand(cmd.str(), trace.str());
 }
 
 
diff --git a/src/vmime/net/smtp/SMTPCommand.cpp b/src/vmime/net/smtp/SMTPCommand.cpp
index c636d4b..6d47402 100644
--- a/src/vmime/net/smtp/SMTPCommand.cpp
+++ b/src/vmime/net/smtp/SMTPCommand.cpp
@@ -88,7 +88,11 @@ shared_ptr <SMTPCommand> SMTPCommand::AUTH(const string& mechName, const std::st
 	cmd.imbue(std::locale::classic());
 	cmd << "AUTH " << mechName << " " << initialResponse;
 
-	return createCommand(cmd.str());
+	std::ostringstream trace;
+	trace.imbue(std::locale::classic());
+	trace << "AUTH " << mechName << " {initial response}";
+
+	return createCommand(cmd.str(), trace.str());
 }
 
 
-- 
2.43.0


From 6e50a8125cca7110cf48062279af7e4bdadae224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:40 +0000
Subject: [PATCH 47/84] fix: IMAP search strings are quoted

---
 src/vmime/net/imap/IMAPSearchAttributes.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/imap/IMAPSearchAttributes.cpp b/src/vmime/net/imap/IMAPSearchAttributes.cpp
index 7675f3e..0550b6c 100644
--- a/src/vmime/net/imap/IMAPSearchAttributes.cpp
+++ b/src/vmime/net/imap/IMAPSearchAttributes.cpp
@@ -63,7 +63,7 @@ public:
 
 	void generate(std::ostringstream& out) const override {
 
-		out << m_token << " \"" << m_keyword << "\"";
+		out << m_token << " " << IMAPUtils::quoteString(m_keyword);
 	};
 };
 
@@ -85,7 +85,8 @@ public:
 
 	void generate(std::ostringstream& out) const override {
 
-		out << m_token << " " << m_keyword << " \"" << m_headerKeyword << "\"";
+		out << m_token << " " << IMAPUtils::quoteString(m_keyword)
+			<< " " << IMAPUtils::quoteString(m_headerKeyword);
 	};
 
 protected:
-- 
2.43.0


From b62ccaf6190eeac6485eda9650d8a9e2725a104e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:40 +0000
Subject: [PATCH 48/84] fix: IMAP, POP3 and SMTP commands cannot contain line
 breaks

---
 src/vmime/net/imap/IMAPCommand.cpp | 4 ++++
 src/vmime/net/pop3/POP3Command.cpp | 4 ++++
 src/vmime/net/smtp/SMTPCommand.cpp | 5 +++++
 3 files changed, 13 insertions(+)

diff --git a/src/vmime/net/imap/IMAPCommand.cpp b/src/vmime/net/imap/IMAPCommand.cpp
index b77f120..0279904 100644
--- a/src/vmime/net/imap/IMAPCommand.cpp
+++ b/src/vmime/net/imap/IMAPCommand.cpp
@@ -44,6 +44,10 @@ IMAPCommand::IMAPCommand(const string& text, const string& traceText)
 	: m_text(text),
 	  m_traceText(traceText) {
 
+	// A command is a single line: do not allow another one to be injected
+	if (text.find_first_of("\r\n") != string::npos) {
+		throw exceptions::invalid_argument();
+	}
 }
 
 
diff --git a/src/vmime/net/pop3/POP3Command.cpp b/src/vmime/net/pop3/POP3Command.cpp
index 92d59e0..b488cc7 100644
--- a/src/vmime/net/pop3/POP3Command.cpp
+++ b/src/vmime/net/pop3/POP3Command.cpp
@@ -46,6 +46,10 @@ POP3Command::POP3Command(const string& text, const string& traceText)
 	: m_text(text),
 	  m_traceText(traceText) {
 
+	// A command is a single line: do not allow another one to be injected
+	if (text.find_first_of("\r\n") != string::npos) {
+		throw exceptions::invalid_argument();
+	}
 }
 
 
diff --git a/src/vmime/net/smtp/SMTPCommand.cpp b/src/vmime/net/smtp/SMTPCommand.cpp
index 6d47402..ccd645f 100644
--- a/src/vmime/net/smtp/SMTPCommand.cpp
+++ b/src/vmime/net/smtp/SMTPCommand.cpp
@@ -32,6 +32,7 @@
 #include "vmime/net/socket.hpp"
 #include "vmime/net/tracer.hpp"
 
+#include "vmime/exception.hpp"
 #include "vmime/mailbox.hpp"
 #include "vmime/utility/outputStreamAdapter.hpp"
 
@@ -45,6 +46,10 @@ SMTPCommand::SMTPCommand(const string& text, const string& traceText)
 	: m_text(text),
 	  m_traceText(traceText)
 {
+	// A command is a single line: do not allow another one to be injected
+	if (text.find_first_of("\r\n") != string::npos) {
+		throw exceptions::invalid_argument();
+	}
 }
 
 
-- 
2.43.0


From 3e792fad269e489c4db5010957144c66124f19c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:34 +0000
Subject: [PATCH 49/84] fix: SHA-1 blocks of different digests share one static
 work buffer

---
 src/vmime/security/digest/sha1/sha1MessageDigest.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/vmime/security/digest/sha1/sha1MessageDigest.cpp b/src/vmime/security/digest/sha1/sha1MessageDigest.cpp
index c098f14..7832016 100644
--- a/src/vmime/security/digest/sha1/sha1MessageDigest.cpp
+++ b/src/vmime/security/digest/sha1/sha1MessageDigest.cpp
@@ -211,10 +211,9 @@ void sha1MessageDigest::transform(
 
 	assert(sizeof(unsigned int) == 4);
 
-	CHAR64LONG16* block;
-	static unsigned char workspace[64];
+	CHAR64LONG16 workspace;
+	CHAR64LONG16* block = &workspace;
 
-	block = reinterpret_cast <CHAR64LONG16*>(workspace);
 	memcpy(block, buffer, 64);
 
 	// Copy context->state[] to working vars
-- 
2.43.0


From 1c30b8e00f01fac3694ebba1232de91b0d5b2eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:34 +0000
Subject: [PATCH 50/84] fix: data race on the connection identifiers given to
 tracers

---
 src/vmime/net/imap/IMAPConnection.cpp | 3 ++-
 src/vmime/net/pop3/POP3Connection.cpp | 5 ++++-
 src/vmime/net/smtp/SMTPConnection.cpp | 5 ++++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index 4d31f81..d5f57e5 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -50,6 +50,7 @@
 #endif // VMIME_HAVE_TLS_SUPPORT
 
 #include <sstream>
+#include <atomic>
 
 // Helpers for service properties
 #define GET_PROPERTY(type, prop) \
@@ -82,7 +83,7 @@ IMAPConnection::IMAPConnection(
 	  m_capabilitiesFetched(false),
 	  m_noModSeq(false) {
 
-	static int connectionId = 0;
+	static std::atomic <int> connectionId(0);
 
 	m_tag = make_shared <IMAPTag>();
 
diff --git a/src/vmime/net/pop3/POP3Connection.cpp b/src/vmime/net/pop3/POP3Connection.cpp
index 2caee80..20f4dfb 100644
--- a/src/vmime/net/pop3/POP3Connection.cpp
+++ b/src/vmime/net/pop3/POP3Connection.cpp
@@ -46,6 +46,9 @@
 	#include "vmime/net/tls/TLSSecuredConnectionInfos.hpp"
 #endif // VMIME_HAVE_TLS_SUPPORT
 
+#include <atomic>
+
+
 
 
 // Helpers for service properties
@@ -75,7 +78,7 @@ POP3Connection::POP3Connection(
 	  m_secured(false),
 	  m_capabilitiesFetched(false) {
 
-	static int connectionId = 0;
+	static std::atomic <int> connectionId(0);
 
 	if (store->getTracerFactory()) {
 		m_tracer = store->getTracerFactory()->create(store, ++connectionId);
diff --git a/src/vmime/net/smtp/SMTPConnection.cpp b/src/vmime/net/smtp/SMTPConnection.cpp
index 5836feb..495746e 100644
--- a/src/vmime/net/smtp/SMTPConnection.cpp
+++ b/src/vmime/net/smtp/SMTPConnection.cpp
@@ -51,6 +51,9 @@
 	#include "vmime/net/tls/TLSSecuredConnectionInfos.hpp"
 #endif // VMIME_HAVE_TLS_SUPPORT
 
+#include <atomic>
+
+
 
 // Helpers for service properties
 #define GET_PROPERTY(type, prop) \
@@ -79,7 +82,7 @@ SMTPConnection::SMTPConnection(
 	  m_secured(false),
 	  m_extendedSMTP(false) {
 
-	static int connectionId = 0;
+	static std::atomic <int> connectionId(0);
 
 	if (transport->getTracerFactory()) {
 		m_tracer = transport->getTracerFactory()->create(transport, ++connectionId);
-- 
2.43.0


From 3f3737613a1495a1fd61800f070b8bfc5acced7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:34 +0000
Subject: [PATCH 51/84] fix: data race on the state of the random number
 generator

---
 src/vmime/utility/random.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/utility/random.cpp b/src/vmime/utility/random.cpp
index 055122b..1682fc3 100644
--- a/src/vmime/utility/random.cpp
+++ b/src/vmime/utility/random.cpp
@@ -45,7 +45,7 @@ static unsigned int getRandomSeed() {
 
 unsigned int random::getNext() {
 
-	static unsigned int next = getRandomSeed();
+	static thread_local unsigned int next = getRandomSeed();
 
 	// Park and Miller's minimal standard generator:
 	// xn+1 = (a * xn + b) mod c
-- 
2.43.0


From 8c12df595c0c09101a7dde91305829a5646b2b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:34 +0000
Subject: [PATCH 52/84] fix: data race when the default platform handler is
 first used

---
 src/vmime/platform.cpp | 24 ++++++++++++++++--------
 src/vmime/platform.hpp |  2 ++
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/vmime/platform.cpp b/src/vmime/platform.cpp
index f2f1e97..6351f9f 100644
--- a/src/vmime/platform.cpp
+++ b/src/vmime/platform.cpp
@@ -54,18 +54,26 @@ shared_ptr <platform::handler> platform::getDefaultHandler() {
 
 
 // static
-shared_ptr <platform::handler> platform::getHandler() {
+bool platform::installDefaultHandler() {
 
-	// If a custom platform handler is installed, return it
-	if (sm_handler) {
-		return sm_handler;
+	// If a custom platform handler is installed, keep it
+	if (!sm_handler) {
+		sm_handler = getDefaultHandler();
 	}
 
-	// Else, use the default handler for this platform
-	shared_ptr <handler> defaultHandler = getDefaultHandler();
+	return true;
+}
+
 
-	if (defaultHandler) {
-		sm_handler = defaultHandler;
+// static
+shared_ptr <platform::handler> platform::getHandler() {
+
+	// On first use, install the default handler for this platform
+	// (initialization of a static variable is thread-safe)
+	static const bool initialized = installDefaultHandler();
+	(void) initialized;
+
+	if (sm_handler) {
 		return sm_handler;
 	}
 
diff --git a/src/vmime/platform.hpp b/src/vmime/platform.hpp
index 97cab13..4f9a790 100644
--- a/src/vmime/platform.hpp
+++ b/src/vmime/platform.hpp
@@ -148,6 +148,8 @@ public:
 
 private:
 
+	static bool installDefaultHandler();
+
 	static shared_ptr <handler> sm_handler;
 };
 
-- 
2.43.0


From 28d5202c3f60d1a1d6e2c27596227c2cb43a16a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:07 +0000
Subject: [PATCH 53/84] fix: do not look past the end of the range for the end
 of an encoded word

---
 src/vmime/word.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/word.cpp b/src/vmime/word.cpp
index c020362..a7ebd51 100644
--- a/src/vmime/word.cpp
+++ b/src/vmime/word.cpp
@@ -324,7 +324,7 @@ void word::parseWithState(
 				//const string::const_iterator encEnd = p;
 				const string::const_iterator dataPos = ++p; // skip '?'
 
-				for ( ; p != pend && !(*p == '?' && *(p + 1) == '=') ; ++p) {}
+				for ( ; p != pend && !(*p == '?' && p + 1 != pend && *(p + 1) == '=') ; ++p) {}
 
 				if (p != pend) {  // some data is specified
 
-- 
2.43.0


From 6a5362d70e96984b1ee178ecfa9185a47a551a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:07 +0000
Subject: [PATCH 54/84] fix: incomplete Base64 group after a previous
 incomplete encoded word

---
 src/vmime/word.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/word.cpp b/src/vmime/word.cpp
index a7ebd51..4427489 100644
--- a/src/vmime/word.cpp
+++ b/src/vmime/word.cpp
@@ -396,8 +396,8 @@ void word::parseWithState(
 							const size_t theoricalEncodedLen =
 								((decodedLen + ((decodedLen % 3) ? (3 - (decodedLen % 3)) : 0) ) / 3) * 4;
 
-							if (state && actualEncodedLen != theoricalEncodedLen) {
-								state->undecodedBytes.assign(dataPos + theoricalEncodedLen, dataEnd);
+							if (state && actualEncodedLen > theoricalEncodedLen) {
+								state->undecodedBytes.assign(encodedBuffer, theoricalEncodedLen, string::npos);
 							}
 						}
 
-- 
2.43.0


From 8b5617d047c3c65f2cce6ba5b3340d68f799a558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:07 +0000
Subject: [PATCH 55/84] fix: uuencoded line shorter than the characters already
 read overflowed the buffer

---
 src/vmime/utility/encoder/uuEncoder.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vmime/utility/encoder/uuEncoder.cpp b/src/vmime/utility/encoder/uuEncoder.cpp
index 24dcdc8..2038e49 100644
--- a/src/vmime/utility/encoder/uuEncoder.cpp
+++ b/src/vmime/utility/encoder/uuEncoder.cpp
@@ -289,6 +289,11 @@ size_t uuEncoder::decode(
 
 		}
 
+		// More characters than announced have already been read
+		if (inPos > inLength) {
+			break;
+		}
+
 		// Read encoded data
 		if (in.read(inBuffer + inPos, inLength - inPos) != inLength - inPos) {
 			// Premature end of data
-- 
2.43.0


From d82ac7c4b1507845f24d7464151f91a6d9846420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:07 +0000
Subject: [PATCH 56/84] fix: one-character host read past its end when encoding
 a URL

---
 src/vmime/utility/urlUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/utility/urlUtils.cpp b/src/vmime/utility/urlUtils.cpp
index ca0f9c6..8c394a3 100644
--- a/src/vmime/utility/urlUtils.cpp
+++ b/src/vmime/utility/urlUtils.cpp
@@ -68,7 +68,7 @@ const string urlUtils::encode(const string& s) {
 
 const string urlUtils::encodeHost(const string& s) {
 
-	if (s.size() == 0) {
+	if (s.size() < 2) {
 		return encode(s);
 	}
 
-- 
2.43.0


From 2827b6c7af6bdb114fe6d51d29500d6d4c473bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:07 +0000
Subject: [PATCH 57/84] fix: boundary guessing read past the end of the read
 buffer

---
 src/vmime/body.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index 06e997e..5682d6f 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -211,9 +211,13 @@ void body::parseImpl(
 					byte_t boundaryBytes[100];
 					size_t boundaryLen = 0;
 
-					for (byte_t c = buffer[boundarySkip] ;
-					     boundaryLen < bufferLen && boundaryLen < 100 && !(c == '\r' || c == '\n') ;
-					     ++boundaryLen, c = buffer[boundarySkip + boundaryLen]) {
+					for ( ; boundarySkip + boundaryLen < bufferLen && boundaryLen < 100 ; ++boundaryLen) {
+
+						const byte_t c = buffer[boundarySkip + boundaryLen];
+
+						if (c == '\r' || c == '\n') {
+							break;
+						}
 
 						boundaryBytes[boundaryLen] = c;
 					}
-- 
2.43.0


From 9c2fce71ff00d9f39eec07f1ba4453fd6721b9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:34 +0000
Subject: [PATCH 58/84] fix: reading the end of a region of a string copied the
 rest of the string

---
 src/vmime/utility/inputStreamStringAdapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/utility/inputStreamStringAdapter.cpp b/src/vmime/utility/inputStreamStringAdapter.cpp
index bf09a9b..4de30f9 100644
--- a/src/vmime/utility/inputStreamStringAdapter.cpp
+++ b/src/vmime/utility/inputStreamStringAdapter.cpp
@@ -68,7 +68,7 @@ size_t inputStreamStringAdapter::read(byte_t* const data, const size_t count) {
 
 		const size_t remaining = m_end - m_pos;
 
-		std::copy(m_buffer.begin() + m_pos, m_buffer.end(), data);
+		std::copy(m_buffer.begin() + m_pos, m_buffer.begin() + m_end, data);
 		m_pos = m_end;
 
 		return remaining;
-- 
2.43.0


From 4fd62ad8905dcfb9513f0996b655df238016cc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:02 +0000
Subject: [PATCH 59/84] fix: generating an empty word read past the end of its
 text

---
 src/vmime/word.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/word.cpp b/src/vmime/word.cpp
index 4427489..7b7dbe6 100644
--- a/src/vmime/word.cpp
+++ b/src/vmime/word.cpp
@@ -598,7 +598,7 @@ void word::generate(
 					if (!state->isFirstWord &&
 					    (state->prevWordIsEncoded || ctx.getInternationalizedEmailSupport()) &&
 					    !state->lastCharIsSpace &&
-					    !parserHelpers::isSpace(*curLineStart)) {
+					    (curLineStart == end || !parserHelpers::isSpace(*curLineStart))) {
 
 						os << " "; // Separate from previous word
 					}
-- 
2.43.0


From 63f88d1dfe508ebb7d31630dd953b17f9eaf4321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:39 +0000
Subject: [PATCH 60/84] fix: date parsing looked at characters after the end of
 the date

---
 src/vmime/dateTime.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/dateTime.cpp b/src/vmime/dateTime.cpp
index b27a691..c139365 100644
--- a/src/vmime/dateTime.cpp
+++ b/src/vmime/dateTime.cpp
@@ -102,7 +102,7 @@ void datetime::parseImpl(
 
 		bool dayParsed = false;
 
-		if (parserHelpers::isAlpha(*p)) {
+		if (p < pend && parserHelpers::isAlpha(*p)) {
 
 			// Ill-formed date/time, this may be the month,
 			// so we skip day parsing (will be done later)
@@ -240,7 +240,7 @@ void datetime::parseImpl(
 
 			m_month = JANUARY;
 
-			if (parserHelpers::isDigit(*p)) {
+			if (p < pend && parserHelpers::isDigit(*p)) {
 
 				// Here, we expected a month, but it maybe
 				// a ill-formed date, so try to parse a year
-- 
2.43.0


From 2924359c35e2012355e2b08d4c3d77e7e94fb5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:39 +0000
Subject: [PATCH 61/84] fix: header field parsing looked at, and skipped,
 characters after the end of the header

---
 src/vmime/headerField.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/headerField.cpp b/src/vmime/headerField.cpp
index 077d3a2..32e8bda 100644
--- a/src/vmime/headerField.cpp
+++ b/src/vmime/headerField.cpp
@@ -123,7 +123,7 @@ shared_ptr <headerField> headerField::parseNext(
 				++pos;
 			}
 
-			if (buffer[pos] != ':') {
+			if (pos >= end || buffer[pos] != ':') {
 
 				// header field recovery is necessary, update flag in parsing context
 				ctx.setHeaderRecoveryNeeded(true);
@@ -248,7 +248,7 @@ shared_ptr <headerField> headerField::parseNext(
 				++pos;
 			}
 
-			if (buffer[pos] == '\n') {
+			if (pos < end && buffer[pos] == '\n') {
 				++pos;
 			}
 		}
-- 
2.43.0


From fb62fc0fed82dbef0b7f982c78186f29d8ecce83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:39 +0000
Subject: [PATCH 62/84] fix: mailbox parsing could skip the character after the
 end of the mailbox

---
 src/vmime/mailbox.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vmime/mailbox.cpp b/src/vmime/mailbox.cpp
index 23f46d9..5b9abf2 100644
--- a/src/vmime/mailbox.cpp
+++ b/src/vmime/mailbox.cpp
@@ -102,6 +102,8 @@ void mailbox::parseImpl(
 		if (state == State_None) {
 			while (p < pend && parserHelpers::isSpace(*p))
 				++p;
+			if (p >= pend)
+				break;
 			if (*p == ',' || *p == ';')
 				/* Completely new mailbox -- stop parsing this one. */
 				break;
-- 
2.43.0


From 463afec925e616110cf415ce46c08a3200e7c536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:39 +0000
Subject: [PATCH 63/84] fix: parameter parsing could go past the end of the
 field

---
 src/vmime/parameterizedHeaderField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/parameterizedHeaderField.cpp b/src/vmime/parameterizedHeaderField.cpp
index bd9c886..e60212a 100644
--- a/src/vmime/parameterizedHeaderField.cpp
+++ b/src/vmime/parameterizedHeaderField.cpp
@@ -129,7 +129,7 @@ void parameterizedHeaderField::parseImpl(
 			}
 		}
 
-		while (*p == ';') {
+		while (p < pend && *p == ';') {
 
 			// Skip ';'
 			++p;
-- 
2.43.0


From 0d668016a76a8c0677050c7cb44795e0246e80fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:23 +0000
Subject: [PATCH 64/84] fix: parameter parsing looked at the character after
 the end of the field

---
 src/vmime/parameterizedHeaderField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/parameterizedHeaderField.cpp b/src/vmime/parameterizedHeaderField.cpp
index e60212a..26978ae 100644
--- a/src/vmime/parameterizedHeaderField.cpp
+++ b/src/vmime/parameterizedHeaderField.cpp
@@ -169,7 +169,7 @@ void parameterizedHeaderField::parseImpl(
 				string value;
 
 				// -- this is a quoted-string
-				if (*p == '"') {
+				if (p < pend && *p == '"') {
 
 					// Skip '"'
 					++p;
-- 
2.43.0


From ae822f6c172d8b86d3d205708fc951433744203a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:54 +0000
Subject: [PATCH 65/84] fix: dot-stuffing duplicated bytes when a block ended
 with a dot and the next began with a new line

---
 src/vmime/utility/filteredStream.cpp | 16 ++++++----------
 src/vmime/utility/filteredStream.hpp |  1 +
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/vmime/utility/filteredStream.cpp b/src/vmime/utility/filteredStream.cpp
index d5ec17b..6fa1098 100644
--- a/src/vmime/utility/filteredStream.cpp
+++ b/src/vmime/utility/filteredStream.cpp
@@ -133,7 +133,8 @@ size_t dotFilteredInputStream::skip(const size_t /* count */) {
 dotFilteredOutputStream::dotFilteredOutputStream(outputStream& os)
 	: m_stream(os),
 	  m_previousChar('\0'),
-	  m_start(true) {
+	  m_start(true),
+	  m_startsWithDot(false) {
 
 }
 
@@ -154,15 +155,9 @@ void dotFilteredOutputStream::writeImpl(const byte_t* const data, const size_t c
 	const byte_t* end = data + count;
 	const byte_t* start = data;
 
-	if (m_previousChar == '.') {
-
-		if (data[0] == '\n' || data[0] == '\r') {
-
-			m_stream.write(".", 1);  // extra <DOT>
-			m_stream.write(data, 1);
-
-			pos = data + 1;
-		}
+	// <DOT> was the first and only character until now
+	if (m_startsWithDot && (data[0] == '\n' || data[0] == '\r')) {
+		m_stream.write(".", 1);  // extra <DOT>
 	}
 
 	// Replace "\n." with "\n.."
@@ -195,6 +190,7 @@ void dotFilteredOutputStream::writeImpl(const byte_t* const data, const size_t c
 
 	m_stream.write(start, end - start);
 	m_previousChar = data[count - 1];
+	m_startsWithDot = m_start && count == 1 && data[0] == '.';
 	m_start = false;
 }
 
diff --git a/src/vmime/utility/filteredStream.hpp b/src/vmime/utility/filteredStream.hpp
index 2414c54..3d073c3 100644
--- a/src/vmime/utility/filteredStream.hpp
+++ b/src/vmime/utility/filteredStream.hpp
@@ -126,6 +126,7 @@ private:
 	outputStream& m_stream;
 	byte_t m_previousChar;
 	bool m_start;
+	bool m_startsWithDot;
 };
 
 
-- 
2.43.0


From ae73e5cd785e0cd971a47bdef0bd9c55497cf23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:05 +0000
Subject: [PATCH 66/84] fix: CR held back at the end of the data was lost when
 the CRLF to LF stream was flushed

---
 src/vmime/utility/filteredStream.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vmime/utility/filteredStream.cpp b/src/vmime/utility/filteredStream.cpp
index 6fa1098..476e3a8 100644
--- a/src/vmime/utility/filteredStream.cpp
+++ b/src/vmime/utility/filteredStream.cpp
@@ -278,9 +278,13 @@ void CRLFToLFFilteredOutputStream::writeImpl(const byte_t* const data, const siz
 
 void CRLFToLFFilteredOutputStream::flush() {
 
-	m_stream.flush();
+	// Last '\r' has been kept until the next character is known
+	if (m_previousChar == '\r') {
+		m_stream.write("\r", 1);
+		m_previousChar = '\0';
+	}
 
-	// TODO
+	m_stream.flush();
 }
 
 
-- 
2.43.0


From 49eef2df0f46592ee1c1585669a28f724f1dd451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:04 +0000
Subject: [PATCH 67/84] fix: IMAP sub-folders keep their name when their parent
 is renamed

A local variable hid the old path of the renamed folder, so that the whole
path of each sub-folder was replaced by the new path of its parent.
---
 src/vmime/net/imap/IMAPFolder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index f0a1f64..d93de0c 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -1314,7 +1314,7 @@ void IMAPFolder::rename(const folder::path& newPath) {
 
 		if ((*it) != this && oldPath.isParentOf((*it)->getFullPath())) {
 
-			folder::path oldPath((*it)->m_path);
+			folder::path oldSubPath((*it)->m_path);
 
 			(*it)->m_path.renameParent(oldPath, newPath);
 
@@ -1322,7 +1322,7 @@ void IMAPFolder::rename(const folder::path& newPath) {
 				make_shared <events::folderEvent>(
 					dynamicCast <folder>((*it)->shared_from_this()),
 					events::folderEvent::TYPE_RENAMED,
-					oldPath, (*it)->m_path
+					oldSubPath, (*it)->m_path
 				);
 
 			(*it)->notifyFolder(event);
-- 
2.43.0


From fb53c0d5bee832bca1db91a5a0dddbc2e575217a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:04 +0000
Subject: [PATCH 68/84] fix: maildir sub-folders keep their name when their
 parent is renamed

A local variable hid the old path of the renamed folder, so that the whole
path of each sub-folder was replaced by the new path of its parent.
---
 src/vmime/net/maildir/maildirFolder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index f069352..474a939 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -613,7 +613,7 @@ void maildirFolder::rename(const folder::path& newPath) {
 
 		} else if ((*it) != this && oldPath.isParentOf((*it)->getFullPath())) {
 
-			folder::path oldPath((*it)->m_path);
+			folder::path oldSubPath((*it)->m_path);
 
 			(*it)->m_path.renameParent(oldPath, newPath);
 
@@ -621,7 +621,7 @@ void maildirFolder::rename(const folder::path& newPath) {
 				make_shared <events::folderEvent>(
 					dynamicCast <folder>((*it)->shared_from_this()),
 					events::folderEvent::TYPE_RENAMED,
-					oldPath, (*it)->m_path
+					oldSubPath, (*it)->m_path
 				);
 
 			(*it)->notifyFolder(event);
-- 
2.43.0


From 3197d26664e7ab42c708becba9b2021d0c902cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:04 +0000
Subject: [PATCH 69/84] fix: IMAP EXPUNGE response decrements the number of
 messages

A server need not send EXISTS after EXPUNGE (RFC-3501, 7.4.1). The message
count kept its old value, and messages that had been there before were then
announced as new.
---
 src/vmime/net/imap/IMAPFolder.cpp       |  2 ++
 src/vmime/net/imap/IMAPFolderStatus.cpp | 15 +++++++++++++++
 src/vmime/net/imap/IMAPFolderStatus.hpp |  7 +++++++
 3 files changed, 24 insertions(+)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index d93de0c..73b5b4c 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -1681,6 +1681,8 @@ void IMAPFolder::processStatusUpdate(const IMAPParser::response* resp) {
 			auto* msgData = (*it)->response_data->message_data.get();
 			const size_t msgNumber = msgData->number;
 
+			m_status->updateFromResponse(*msgData);
+
 			if (msgData->type == IMAPParser::message_data::FETCH) {
 
 				// Message changed
diff --git a/src/vmime/net/imap/IMAPFolderStatus.cpp b/src/vmime/net/imap/IMAPFolderStatus.cpp
index 101d5e4..781875b 100644
--- a/src/vmime/net/imap/IMAPFolderStatus.cpp
+++ b/src/vmime/net/imap/IMAPFolderStatus.cpp
@@ -285,6 +285,21 @@ bool IMAPFolderStatus::updateFromResponse(const IMAPParser::resp_text_code& resp
 }
 
 
+bool IMAPFolderStatus::updateFromResponse(const IMAPParser::message_data& resp) {
+
+	bool changed = false;
+
+	// RFC-3501: "The EXPUNGE response also decrements by one the number of messages
+	// in the mailbox; it is not necessary to send an EXISTS response with the new value"
+	if (resp.type == IMAPParser::message_data::EXPUNGE && m_count != 0) {
+		--m_count;
+		changed = true;
+	}
+
+	return changed;
+}
+
+
 } // imap
 } // net
 } // vmime
diff --git a/src/vmime/net/imap/IMAPFolderStatus.hpp b/src/vmime/net/imap/IMAPFolderStatus.hpp
index b9a73ec..9be8603 100644
--- a/src/vmime/net/imap/IMAPFolderStatus.hpp
+++ b/src/vmime/net/imap/IMAPFolderStatus.hpp
@@ -102,6 +102,13 @@ public:
 	  */
 	bool updateFromResponse(const IMAPParser::resp_text_code& resp);
 
+	/** Reads the folder status from the specified IMAP response.
+	  *
+	  * @param resp parsed IMAP response
+	  * @return true if the status changed, or false otherwise
+	  */
+	bool updateFromResponse(const IMAPParser::message_data& resp);
+
 private:
 
 	size_t m_count;
-- 
2.43.0


From 56a5694f7129f4ced158ef1627e1e528bb933d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:04 +0000
Subject: [PATCH 70/84] fix: IMAP folder announced its last old message as a
 new one

---
 src/vmime/net/imap/IMAPFolder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 73b5b4c..577b136 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -1733,7 +1733,7 @@ void IMAPFolder::processStatusUpdate(const IMAPParser::response* resp) {
 
 		std::vector <size_t> newMessageNumbers;
 
-		for (size_t msgNumber = oldStatus->getMessageCount() - expungedMessageCount ;
+		for (size_t msgNumber = oldStatus->getMessageCount() - expungedMessageCount + 1 ;
 		     msgNumber <= m_status->getMessageCount() ; ++msgNumber) {
 
 			newMessageNumbers.push_back(msgNumber);
-- 
2.43.0


From 9a52760a4532b4f9cd3e1aedf05ed803ece7b3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:04 +0000
Subject: [PATCH 71/84] fix: maildir expunge() removed the wrong entries from
 the message list

---
 src/vmime/net/maildir/maildirFolder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 474a939..4ee135d 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -1211,7 +1211,7 @@ void maildirFolder::expunge() {
 	if (!nums.empty()) {
 
 		for (std::vector <size_t>::size_type i = nums.size() ; i != 0 ; --i) {
-			m_messageInfos.erase(m_messageInfos.begin() + (i - 1));
+			m_messageInfos.erase(m_messageInfos.begin() + (nums[i - 1] - 1));
 		}
 	}
 
-- 
2.43.0


From 6d0c8bddc2428f2774390128d6c1c5f44beb5085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:04 +0000
Subject: [PATCH 72/84] fix: maildir expunge() renumbers messages correctly
 when several are expunged

Numbers that had already been lowered were compared with the numbers
messages had before.
---
 src/vmime/net/maildir/maildirFolder.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 4ee135d..910a710 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -1187,9 +1187,13 @@ void maildirFolder::expunge() {
 			for (std::vector <maildirMessage*>::iterator it =
 			     m_messages.begin() ; it != m_messages.end() ; ++it) {
 
-				if ((*it)->m_num == num) {
+				// Messages have been renumbered since: 'nums.size() - 1' messages
+				// before this one have already been expunged
+				const size_t currentNum = num - (nums.size() - 1);
+
+				if ((*it)->m_num == currentNum) {
 					(*it)->m_expunged = true;
-				} else if ((*it)->m_num > num) {
+				} else if ((*it)->m_num > currentNum) {
 					(*it)->m_num--;
 				}
 			}
-- 
2.43.0


From 98c8513d4c7546662377ed684abcfc8e28325b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:04 +0000
Subject: [PATCH 73/84] fix: maildir expunge() subtracted messages already read
 from the unread count

---
 src/vmime/net/maildir/maildirFolder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 910a710..1f7ce73 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -1198,7 +1198,7 @@ void maildirFolder::expunge() {
 				}
 			}
 
-			if (maildirUtils::extractFlags(infos.path) & message::FLAG_SEEN) {
+			if (!(maildirUtils::extractFlags(infos.path) & message::FLAG_SEEN)) {
 				++unreadCount;
 			}
 
-- 
2.43.0


From 49c379fdf3fc5b234b7c06db4f74b4ae9a60f7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:04 +0000
Subject: [PATCH 74/84] fix: maildir getStatus() wrote past the end of the list
 of new messages

---
 src/vmime/net/maildir/maildirFolder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 1f7ce73..272263f 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -1113,7 +1113,7 @@ shared_ptr <folderStatus> maildirFolder::getStatus() {
 	if (m_messageCount > oldCount) {
 
 		std::vector <size_t> nums;
-		nums.reserve(m_messageCount - oldCount);
+		nums.resize(m_messageCount - oldCount);
 
 		for (size_t i = oldCount + 1, j = 0 ; i <= m_messageCount ; ++i, ++j) {
 			nums[j] = i;
-- 
2.43.0


From 6abb8ff80c6fac6f11b0b0467f383aa55bdb3d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:33 +0000
Subject: [PATCH 75/84] fix: SMTP connection was left out of step when a
 pipelined command was refused, or when the message could not be read

---
 src/vmime/net/smtp/SMTPTransport.cpp | 44 ++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/src/vmime/net/smtp/SMTPTransport.cpp b/src/vmime/net/smtp/SMTPTransport.cpp
index e557137..206aeda 100644
--- a/src/vmime/net/smtp/SMTPTransport.cpp
+++ b/src/vmime/net/smtp/SMTPTransport.cpp
@@ -300,6 +300,12 @@ void SMTPTransport::sendEnvelope(
 	if ((resp = m_connection->readResponse())->getCode() != 250) {
 		auto code = resp->getCode();
 
+		// The commands that follow have already been sent, and their responses
+		// would be taken for the ones of the next commands
+		if (hasPipelining) {
+			disconnect();
+		}
+
 		// SIZE extension: insufficient system storage
 		if (code == 452) {
 
@@ -340,6 +346,12 @@ void SMTPTransport::sendEnvelope(
 
 		if (code != 250 && code != 251) {
 
+			// The commands that follow have already been sent, and their responses
+			// would be taken for the ones of the next commands
+			if (hasPipelining) {
+				disconnect();
+			}
+
 			// SIZE extension: insufficient system storage
 			if (code == 452) {
 
@@ -411,9 +423,22 @@ void SMTPTransport::send(
 	utility::outputStreamSocketAdapter sos(*m_connection->getSocket());
 	utility::dotFilteredOutputStream fos(sos);
 
-	utility::bufferedStreamCopy(is, fos, size, progress);
+	try {
+
+		utility::bufferedStreamCopy(is, fos, size, progress);
 
-	fos.flush();
+		fos.flush();
+
+	} catch (...) {
+
+		// The server is waiting for the end of the data: no other command
+		// can be sent on this connection
+		if (isConnected()) {
+			disconnect();
+		}
+
+		throw;
+	}
 
 	// Send end-of-data delimiter
 	m_connection->getSocket()->send("\r\n.\r\n");
@@ -477,7 +502,20 @@ void SMTPTransport::send(
 	// Send the message by chunks
 	SMTPChunkingOutputStreamAdapter chunkStream(m_connection, msgSize, progress);
 
-	msg->generate(ctx, chunkStream);
+	try {
+
+		msg->generate(ctx, chunkStream);
+
+	} catch (...) {
+
+		// Part of the message has been sent, and responses to the chunks
+		// may not have been read
+		if (isConnected()) {
+			disconnect();
+		}
+
+		throw;
+	}
 
 	chunkStream.flush();
 }
-- 
2.43.0


From 7899265b6b541c98df3c58d400db45bac1f6f981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:33 +0000
Subject: [PATCH 76/84] fix: IMAP connection was left waiting for message data
 when the message to append could not be read

---
 src/vmime/net/imap/IMAPConnection.cpp |  8 ++++++++
 src/vmime/net/imap/IMAPConnection.hpp |  5 +++++
 src/vmime/net/imap/IMAPFolder.cpp     | 29 ++++++++++++++++++---------
 3 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index d5f57e5..02f6511 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -744,6 +744,14 @@ void IMAPConnection::disconnect() {
 }
 
 
+void IMAPConnection::abort() {
+
+	if (m_socket) {
+		m_socket->disconnect();
+	}
+}
+
+
 void IMAPConnection::internalDisconnect() {
 
 	if (isConnected()) {
diff --git a/src/vmime/net/imap/IMAPConnection.hpp b/src/vmime/net/imap/IMAPConnection.hpp
index d229d0f..4f83918 100644
--- a/src/vmime/net/imap/IMAPConnection.hpp
+++ b/src/vmime/net/imap/IMAPConnection.hpp
@@ -64,6 +64,11 @@ public:
 	bool isConnected() const;
 	void disconnect();
 
+	/** Close the connection at once, without sending a LOGOUT command,
+	  * when the server is not expecting a command.
+	  */
+	void abort();
+
 
 	enum ProtocolStates {
 		STATE_NONE,
diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 577b136..a169359 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -1188,19 +1188,30 @@ messageSet IMAPFolder::addMessage(
 	std::vector <byte_t> vbuffer(blockSize);
 	byte_t* buffer = &vbuffer.front();
 
-	while (!is.eof()) {
+	try {
 
-		// Read some data from the input stream
-		const size_t read = is.read(buffer, blockSize);
-		current += read;
+		while (!is.eof()) {
 
-		// Put read data into socket output stream
-		m_connection->sendRaw(buffer, read);
+			// Read some data from the input stream
+			const size_t read = is.read(buffer, blockSize);
+			current += read;
 
-		// Notify progress
-		if (progress) {
-			progress->progress(current, total);
+			// Put read data into socket output stream
+			m_connection->sendRaw(buffer, read);
+
+			// Notify progress
+			if (progress) {
+				progress->progress(current, total);
+			}
 		}
+
+	} catch (...) {
+
+		// The server is waiting for the rest of the message: no other command
+		// can be sent on this connection
+		m_connection->abort();
+
+		throw;
 	}
 
 	m_connection->sendRaw(utility::stringUtils::bytesFromString("\r\n"), 2);
-- 
2.43.0


From e2dd3f00a480877032e74ffca2abbb221ceb99ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:37 +0000
Subject: [PATCH 77/84] fix: qpEncoder::decode() notifies the start of the
 operation

---
 src/vmime/utility/encoder/qpEncoder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vmime/utility/encoder/qpEncoder.cpp b/src/vmime/utility/encoder/qpEncoder.cpp
index 4aeb640..0eb030f 100644
--- a/src/vmime/utility/encoder/qpEncoder.cpp
+++ b/src/vmime/utility/encoder/qpEncoder.cpp
@@ -398,6 +398,10 @@ size_t qpEncoder::decode(
 	size_t total = 0;
 	size_t inTotal = 0;
 
+	if (progress) {
+		progress->start(0);
+	}
+
 	while (bufferPos < bufferLength || !in.eof()) {
 
 		// Flush current output buffer
-- 
2.43.0


From ece37b93613ca90f8d28606dee9c0754050c8233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:13:44 +0000
Subject: [PATCH 78/84] fix: parsing depended on the locale of the program

The line after a boundary, the name of a time zone and the keywords of
IMAP responses were examined with functions that depend on the global
locale (isspace, isalpha, std::tolower with std::locale()).
---
 src/vmime/body.cpp                | 2 +-
 src/vmime/dateTime.cpp            | 2 +-
 src/vmime/net/imap/IMAPParser.hpp | 3 ++-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index 5682d6f..d270fda 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -99,7 +99,7 @@ size_t body::findNextBoundaryPosition(
 		const byte_t next = parser->peekByte();
 
 		// Boundary should be followed by a new line or a dash
-		if (!isspace(next) && next != '-') {
+		if (!parserHelpers::isSpace(next) && next != '-') {
 			continue;
 		}
 
diff --git a/src/vmime/dateTime.cpp b/src/vmime/dateTime.cpp
index c139365..1405837 100644
--- a/src/vmime/dateTime.cpp
+++ b/src/vmime/dateTime.cpp
@@ -412,7 +412,7 @@ void datetime::parseImpl(
 				m_zone = -(hourOff * 60 + minOff);
 			}
 
-		} else if (p < pend && isalpha(*p)) {
+		} else if (p < pend && parserHelpers::isAlpha(*p)) {
 
 			bool done = false;
 
diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index 11b0cf7..5276ca1 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -35,6 +35,7 @@
 #include "vmime/dateTime.hpp"
 #include "vmime/charset.hpp"
 #include "vmime/exception.hpp"
+#include "vmime/parserHelpers.hpp"
 
 #include "vmime/utility/stringUtils.hpp"
 #include "vmime/utility/progressListener.hpp"
@@ -1401,7 +1402,7 @@ public:
 
 			while (ok && *cmp && *with) {
 
-				ok = (std::tolower(*cmp, std::locale()) == *with);
+				ok = (parserHelpers::toLower(*cmp) == *with);
 
 				++cmp;
 				++with;
-- 
2.43.0


From dac3a81b02a9b6697e3b8b2d0a321e4e470defde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:42:49 +0000
Subject: [PATCH 79/84] fix: keywords of Received fields were recognised by
 their first letters

---
 src/vmime/relay.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/vmime/relay.cpp b/src/vmime/relay.cpp
index f989615..dd70012 100644
--- a/src/vmime/relay.cpp
+++ b/src/vmime/relay.cpp
@@ -127,32 +127,32 @@ void relay::parseImpl(
 
 				if (!inComment) {
 
-					if (utility::stringUtils::isStringEqualNoCase(word, "from", 4)) {
+					if (utility::stringUtils::isStringEqualNoCase(word, string("from"))) {
 
 						newPart = Part_From;
 						keyword = true;
 
-					} else if (utility::stringUtils::isStringEqualNoCase(word, "by", 2)) {
+					} else if (utility::stringUtils::isStringEqualNoCase(word, string("by"))) {
 
 						newPart = Part_By;
 						keyword = true;
 
-					} else if (utility::stringUtils::isStringEqualNoCase(word, "via", 2)) {
+					} else if (utility::stringUtils::isStringEqualNoCase(word, string("via"))) {
 
 						newPart = Part_Via;
 						keyword = true;
 
-					} else if (utility::stringUtils::isStringEqualNoCase(word, "with", 2)) {
+					} else if (utility::stringUtils::isStringEqualNoCase(word, string("with"))) {
 
 						newPart = Part_With;
 						keyword = true;
 
-					} else if (utility::stringUtils::isStringEqualNoCase(word, "id", 2)) {
+					} else if (utility::stringUtils::isStringEqualNoCase(word, string("id"))) {
 
 						newPart = Part_Id;
 						keyword = true;
 
-					} else if (utility::stringUtils::isStringEqualNoCase(word, "for", 2)) {
+					} else if (utility::stringUtils::isStringEqualNoCase(word, string("for"))) {
 
 						newPart = Part_For;
 						keyword = true;
-- 
2.43.0


From 65acd37c567980a5821d9bb0eed7f19046ba7f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:42:49 +0000
Subject: [PATCH 80/84] fix: SMTP extensions and IMAP AUTH= capabilities
 depended on their case

---
 src/vmime/net/imap/IMAPConnection.cpp | 2 +-
 src/vmime/net/smtp/SMTPConnection.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index 02f6511..9cd8042 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -697,7 +697,7 @@ void IMAPConnection::processCapabilityResponseData(const IMAPParser::capability_
 	for (auto &cap : capaData->capabilities) {
 
 		if (cap->auth_type) {
-			res.push_back("AUTH=" + cap->auth_type->name);
+			res.push_back("AUTH=" + utility::stringUtils::toUpper(cap->auth_type->name));
 		} else {
 			res.push_back(utility::stringUtils::toUpper(cap->atom->value));
 		}
diff --git a/src/vmime/net/smtp/SMTPConnection.cpp b/src/vmime/net/smtp/SMTPConnection.cpp
index 495746e..9f352df 100644
--- a/src/vmime/net/smtp/SMTPConnection.cpp
+++ b/src/vmime/net/smtp/SMTPConnection.cpp
@@ -269,7 +269,7 @@ void SMTPConnection::helo() {
 				params.push_back(utility::stringUtils::toUpper(param));
 			}
 
-			m_extensions[ext] = params;
+			m_extensions[utility::stringUtils::toUpper(ext)] = params;
 		}
 	}
 }
@@ -281,7 +281,7 @@ bool SMTPConnection::hasExtension(
 ) const {
 
 	std::map <string, std::vector <string> >::const_iterator
-		it = m_extensions.find(extName);
+		it = m_extensions.find(utility::stringUtils::toUpper(extName));
 
 	if (it != m_extensions.end()) {
 
-- 
2.43.0


From e2a191388a5d44c4ddce076deb2807d728fdcf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:42:49 +0000
Subject: [PATCH 81/84] fix: IMAP part names were only found as NAME in upper
 case

---
 src/vmime/net/imap/IMAPMessagePart.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPMessagePart.cpp b/src/vmime/net/imap/IMAPMessagePart.cpp
index ed2c0bd..6268461 100644
--- a/src/vmime/net/imap/IMAPMessagePart.cpp
+++ b/src/vmime/net/imap/IMAPMessagePart.cpp
@@ -30,6 +30,8 @@
 #include "vmime/net/imap/IMAPMessagePart.hpp"
 #include "vmime/net/imap/IMAPMessageStructure.hpp"
 
+#include "vmime/utility/stringUtils.hpp"
+
 
 namespace vmime {
 namespace net {
@@ -57,7 +59,7 @@ namespace {
 	vmime::string getPartName(const T& body_type) {
 		if (const auto* pparam = body_type->body_fields->body_fld_param.get()) {
 			for (const auto& param : pparam->items) {
-				if (param->string1->value == "NAME") {
+				if (utility::stringUtils::isStringEqualNoCase(param->string1->value, string("name"))) {
 					return param->string2->value;
 				}
 			}
-- 
2.43.0


From 7f920073b3919464976bbe048499e2cb24d8de79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:42:49 +0000
Subject: [PATCH 82/84] fix: registered SASL mechanisms and services were not
 found in another case

---
 src/vmime/net/serviceFactory.cpp                 | 2 +-
 src/vmime/security/sasl/SASLMechanismFactory.cpp | 4 +++-
 src/vmime/security/sasl/SASLMechanismFactory.hpp | 4 +++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/vmime/net/serviceFactory.cpp b/src/vmime/net/serviceFactory.cpp
index 72b96fe..d6d9376 100644
--- a/src/vmime/net/serviceFactory.cpp
+++ b/src/vmime/net/serviceFactory.cpp
@@ -108,7 +108,7 @@ shared_ptr <const serviceFactory::registeredService> serviceFactory::getServiceB
 	for (std::vector <shared_ptr <registeredService> >::const_iterator it = m_services.begin() ;
 	     it != m_services.end() ; ++it) {
 
-		if ((*it)->getName() == name) {
+		if (utility::stringUtils::toLower((*it)->getName()) == name) {
 			return (*it);
 		}
 	}
diff --git a/src/vmime/security/sasl/SASLMechanismFactory.cpp b/src/vmime/security/sasl/SASLMechanismFactory.cpp
index a2fbedb..26a0c59 100644
--- a/src/vmime/security/sasl/SASLMechanismFactory.cpp
+++ b/src/vmime/security/sasl/SASLMechanismFactory.cpp
@@ -129,7 +129,9 @@ const std::vector <string> SASLMechanismFactory::getSupportedMechanisms() const
 }
 
 
-bool SASLMechanismFactory::isMechanismSupported(const string& name) const {
+bool SASLMechanismFactory::isMechanismSupported(const string& name_) const {
+
+	const string name(utility::stringUtils::toUpper(name_));
 
 	return isBuiltinMechanism(name) || m_mechs.find(name) != m_mechs.end();
 }
diff --git a/src/vmime/security/sasl/SASLMechanismFactory.hpp b/src/vmime/security/sasl/SASLMechanismFactory.hpp
index af76c96..e0fea7f 100644
--- a/src/vmime/security/sasl/SASLMechanismFactory.hpp
+++ b/src/vmime/security/sasl/SASLMechanismFactory.hpp
@@ -36,6 +36,8 @@
 
 #include "vmime/security/sasl/SASLMechanism.hpp"
 
+#include "vmime/utility/stringUtils.hpp"
+
 #include <map>
 
 
@@ -93,7 +95,7 @@ public:
 
 		m_mechs.insert(
 			MapType::value_type(
-				name,
+				utility::stringUtils::toUpper(name),
 				vmime::make_shared <registeredMechanismImpl <MECH_CLASS> >()
 			)
 		);
-- 
2.43.0


From e1b4873dff27f8cef52bc36a63eea756f6dc6ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:42:49 +0000
Subject: [PATCH 83/84] fix: case of encoding, disposition, modifier, parameter
 and report type names

setName() of encoding and contentDisposition did not normalise the name,
modifiers that were parsed or given to the constructor were not found,
sections of one parameter were not put together when their case differed,
and the report type of an MDN and the prefix of an IDN had to be in lower
case.
---
 src/vmime/charsetConverter_idna.cpp    |  2 +-
 src/vmime/contentDisposition.cpp       |  2 +-
 src/vmime/disposition.cpp              |  4 ++--
 src/vmime/encoding.cpp                 |  2 +-
 src/vmime/mdn/MDNHelper.cpp            |  3 ++-
 src/vmime/parameterizedHeaderField.cpp | 11 ++++++++---
 6 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/vmime/charsetConverter_idna.cpp b/src/vmime/charsetConverter_idna.cpp
index db4e131..6bac3fa 100644
--- a/src/vmime/charsetConverter_idna.cpp
+++ b/src/vmime/charsetConverter_idna.cpp
@@ -143,7 +143,7 @@ void charsetConverter_idna::convert(const string& in, string& out, status* st) {
 
 	} else if (m_source == "idna") {
 
-		if (in.length() < 5 || in.substr(0, 4) != "xn--") {
+		if (in.length() < 5 || !utility::stringUtils::isStringEqualNoCase(in, "xn--", 4)) {
 
 			if (st) {
 				st->inputBytesRead = in.length();
diff --git a/src/vmime/contentDisposition.cpp b/src/vmime/contentDisposition.cpp
index 8c78475..ed05589 100644
--- a/src/vmime/contentDisposition.cpp
+++ b/src/vmime/contentDisposition.cpp
@@ -131,7 +131,7 @@ const string& contentDisposition::getName() const {
 
 void contentDisposition::setName(const string& name) {
 
-	m_name = name;
+	m_name = utility::stringUtils::toLower(name);
 }
 
 
diff --git a/src/vmime/disposition.cpp b/src/vmime/disposition.cpp
index 6df91ac..92d2dc2 100644
--- a/src/vmime/disposition.cpp
+++ b/src/vmime/disposition.cpp
@@ -150,7 +150,7 @@ void disposition::removeModifier(const string& modifier) {
 	for (std::vector <string>::iterator it = m_modifiers.begin() ;
 	     it != m_modifiers.end() ; ++it) {
 
-		if (*it == modifierLC) {
+		if (utility::stringUtils::toLower(*it) == modifierLC) {
 			m_modifiers.erase(it);
 			break;
 		}
@@ -171,7 +171,7 @@ bool disposition::hasModifier(const string& modifier) const {
 	for (std::vector <string>::const_iterator it = m_modifiers.begin() ;
 	     it != m_modifiers.end() ; ++it) {
 
-		if (*it == modifierLC) {
+		if (utility::stringUtils::toLower(*it) == modifierLC) {
 			return true;
 		}
 	}
diff --git a/src/vmime/encoding.cpp b/src/vmime/encoding.cpp
index e12f4f6..ff4a335 100644
--- a/src/vmime/encoding.cpp
+++ b/src/vmime/encoding.cpp
@@ -305,7 +305,7 @@ const string& encoding::getName() const {
 
 void encoding::setName(const string& name) {
 
-	m_name = name;
+	m_name = utility::stringUtils::toLower(name);
 }
 
 
diff --git a/src/vmime/mdn/MDNHelper.cpp b/src/vmime/mdn/MDNHelper.cpp
index a21a181..5746e38 100644
--- a/src/vmime/mdn/MDNHelper.cpp
+++ b/src/vmime/mdn/MDNHelper.cpp
@@ -32,6 +32,7 @@
 #include "vmime/dateTime.hpp"
 
 #include "vmime/utility/outputStreamAdapter.hpp"
+#include "vmime/utility/stringUtils.hpp"
 
 
 namespace vmime {
@@ -93,7 +94,7 @@ bool MDNHelper::isMDN(const shared_ptr <const message>& msg)
 		    type.getSubType() == vmime::mediaTypes::MULTIPART_REPORT) {
 
 			if (ctf.hasParameter("report-type") &&
-			    ctf.getReportType() == "disposition-notification") {
+			    utility::stringUtils::toLower(ctf.getReportType()) == "disposition-notification") {
 
 				return true;
 			}
diff --git a/src/vmime/parameterizedHeaderField.cpp b/src/vmime/parameterizedHeaderField.cpp
index 26978ae..344ec19 100644
--- a/src/vmime/parameterizedHeaderField.cpp
+++ b/src/vmime/parameterizedHeaderField.cpp
@@ -68,6 +68,7 @@ parameterizedHeaderField::~parameterizedHeaderField() {
 
 struct paramInfo {
 
+	string name;
 	bool extended;
 	std::vector <parameter::valueChunk> value;
 	size_t start;
@@ -287,7 +288,8 @@ void parameterizedHeaderField::parseImpl(
 					}
 
 					// Add/replace/modify the parameter
-					const std::map <string, paramInfo>::iterator it = params.find(name);
+					const std::map <string, paramInfo>::iterator it =
+						params.find(utility::stringUtils::toLower(name));
 
 					if (it != params.end()) {
 
@@ -316,13 +318,16 @@ void parameterizedHeaderField::parseImpl(
 						chunk.data = value;
 
 						paramInfo info;
+						info.name = name;
 						info.extended = extended;
 						info.value.push_back(chunk);
 						info.start = attrStart;
 						info.end = position + (p - pstart);
 
 						// Insert a new parameter
-						params.insert(std::map <string, paramInfo>::value_type(name, info));
+						params.insert(
+							std::map <string, paramInfo>::value_type(utility::stringUtils::toLower(name), info)
+						);
 					}
 				}
 
@@ -337,7 +342,7 @@ void parameterizedHeaderField::parseImpl(
 			const paramInfo& info = (*it).second;
 
 			// Append this parameter to the list
-			shared_ptr <parameter> param = make_shared <parameter>((*it).first);
+			shared_ptr <parameter> param = make_shared <parameter>(info.name);
 
 			param->parse(ctx, info.value);
 			param->setParsedBounds(info.start, info.end);
-- 
2.43.0


From ad74176ee2ffa15ce8683d673bf141ee952ae7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:42:49 +0000
Subject: [PATCH 84/84] fix: months of certificate dates were lower-cased with
 the global locale

---
 .../security/cert/openssl/X509Certificate_OpenSSL.cpp      | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
index 798046d..b5ec52a 100644
--- a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
+++ b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
@@ -37,6 +37,7 @@
 #include "vmime/net/tls/openssl/OpenSSLInitializer.hpp"
 
 #include "vmime/utility/outputStreamByteArrayAdapter.hpp"
+#include "vmime/utility/stringUtils.hpp"
 
 #include "vmime/security/cert/certificateException.hpp"
 #include "vmime/security/cert/unsupportedCertificateTypeException.hpp"
@@ -85,12 +86,10 @@ public:
 		m_monthMap["dec"] = vmime::datetime::DEC;
 	}
 
-	int getMonth(vmime::string mstr) {
-
-		std::transform(mstr.begin(), mstr.end(), mstr.begin(), ::tolower);
+	int getMonth(const vmime::string& mstr) {
 
 		std::map <vmime::string, vmime::datetime::Months>::const_iterator
-			c_it = m_monthMap.find(mstr);
+			c_it = m_monthMap.find(vmime::utility::stringUtils::toLower(mstr));
 
 		if (c_it != m_monthMap.end()) {
 			return c_it->second;
-- 
2.43.0

