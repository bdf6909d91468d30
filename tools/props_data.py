N = 'src/vmime/net/'

P('C01', 'Credentials never cross the network in clear when TLS is required',
  'When a service uses implicit TLS (imaps, pop3s, smtps), or when connection.tls and connection.tls.required are both '
  'set, connect() of the IMAP, POP3 and SMTP connections sends credentials and authentication commands only over a TLS '
  'socket whose handshake has completed, and never returns normally without one: a server that refuses or does not offer '
  'STARTTLS makes connect() fail. isSecuredConnection() is true only when TLS is in place. A TLS socket '
  'itself sends and receives application data only through the TLS library.',
  ['inputs', 'histories'], 'all servers (any sequence of replies), all authentication methods and options, IMAP, POP3 and SMTP',
  'The tests connect to friendly scripted servers without TLS; no test runs STARTTLS or implicit TLS at all.',
  [N + 'imap/IMAPConnection.cpp', N + 'pop3/POP3Connection.cpp', N + 'smtp/SMTPConnection.cpp', N + 'tls'],
  [('tlsRequired decisions in connect()', N + 'imap/IMAPConnection.cpp'), ('handshake in startTLS()', N + 'pop3/POP3Connection.cpp')],
  state=[('m_socket', 'the socket commands are sent on', N + 'imap/IMAPConnection.hpp')],
  observe=['bytes on the plain socket', 'outcome of connect()'],
  technique='path-sensitive must-pass-through analysis of connect() with callees and handlers, option values fixed',
  note='Decided on all paths of connect() for the fixed option values. Trusted: the list of credential accessors and of '
       'authentication commands, and that the TLS library encrypts.')

P('C02', 'A TLS connection is accepted only after its certificate chain was verified',
  'A TLS handshake succeeds only when the verifier given to the service has accepted the certificate chain '
  'presented by the peer for the name of the server. The default verifier refuses an empty chain, a chain with a certificate that is '
  'not X.509, a link that was not issued and signed by the next one, a certificate outside its validity period, a chain not '
  'ending in or at a trusted certificate, and a first certificate that does not carry the name of the server. Errors of '
  'the TLS library during these checks count as refusals.',
  ['inputs'], 'both TLS libraries (GnuTLS, OpenSSL), all certificate chains', 'No test performs a handshake or verifies a chain.',
  ['src/vmime/security/cert', N + 'tls'],
  [('verify() call in handshake()', N + 'tls/gnutls/TLSSocket_GnuTLS.cpp'),
   ('verifyX509 chain walk', 'src/vmime/security/cert/defaultCertificateVerifier.cpp')],
  observe=['outcome of handshake()', 'exceptions of verify()'],
  technique='must-pass-through analysis of the handshakes; path-sensitive analysis of the default verifier per flaw and position',
  note='The default verifier is analysed for chains of up to three certificates with one flaw at each position. Trusted: the '
       'meaning of the answers of GnuTLS and OpenSSL; reverse lookup of numeric server addresses is taken as documented.')

P('C03', 'Nothing learned before STARTTLS is used after it',
  'After a TLS handshake started with STARTTLS/STLS, and after a SASL exchange that negotiates a security layer, the IMAP, '
  'POP3 and SMTP connections use the secured socket for everything that follows. They use no capabilities announced '
  'before the handshake, and no response data received before it.',
  ['inputs', 'histories'], 'all servers and all timings of their data', 'No test runs STARTTLS; data arriving together with the '
  'reply to STARTTLS is never simulated.',
  [N + 'imap/IMAPConnection.cpp', N + 'pop3/POP3Connection.cpp', N + 'smtp/SMTPConnection.cpp'],
  [('capability reset after startTLS()', N + 'smtp/SMTPConnection.cpp'), ('parser socket switch', N + 'imap/IMAPConnection.cpp')],
  state=[('capabilities', 'extensions announced by the server', N + 'smtp/SMTPConnection.hpp'),
         ('input buffers', 'bytes received and not yet parsed', N + 'imap/IMAPParser.hpp')],
  observe=['commands sent after the handshake'],
  technique='must-pass-through analysis over connect(), startTLS() and authenticateSASL()',
  note='Decided on all paths. Trusted: the list of members holding what was learned from the server.')

P('C04', 'Credentials never reach the protocol trace or an error message',
  'User names, passwords, access tokens and the responses that SASL mechanisms compute from them (or digests of them) are '
  'sent to the server only. The text that a service hands to the tracer of the application, and the text of the exceptions '
  'it throws, never contains one of them: placeholders or byte counts appear instead.',
  ['inputs', 'histories'], 'all authentication methods of the IMAP, POP3 and SMTP services, with any credentials and replies',
  'Tests look at the trace text of one IMAP command; no test connects with a tracer.',
  [N + 'imap/IMAPCommand.cpp', N + 'pop3/POP3Command.cpp', N + 'smtp/SMTPCommand.cpp', N + 'imap/IMAPConnection.cpp',
   N + 'pop3/POP3Connection.cpp', N + 'smtp/SMTPConnection.cpp'],
  [('trace text of the commands', N + 'pop3/POP3Command.cpp'), ('SASL exchange', N + 'smtp/SMTPConnection.cpp')],
  observe=['text given to tracer::traceSend/traceReceive', 'exception messages'],
  technique='interprocedural, context-sensitive taint analysis from credential sources to tracer and exception arguments',
  note='Every function of the network and SASL code of both build configurations is analysed with members summarised over '
       'the program. Trusted: the list of sources (authenticator getters, SASLSession::evaluateChallenge) and that numbers '
       'do not carry credentials. Server replies are traced as they are.')

P('C05', 'Application data cannot change the structure of a protocol command',
  'The text of an IMAP, POP3 or SMTP command never contains a line break that comes from the caller: an operation given such '
  'a value fails with an exception and sends nothing of it. Strings the caller passes to IMAP operations (folder names, '
  'credentials, search strings) appear in commands as atoms or as quoted strings in which " and \\ are escaped. What is passed to '
  'the sendmail program (sender and recipients) cannot be taken for one of its options.',
  ['inputs'], 'all operations of the IMAP, POP3, SMTP and sendmail services, all strings',
  'Tests build commands from a few plain words; no test passes a name containing a quote, a backslash or a line break.',
  [N + 'imap/IMAPCommand.cpp', N + 'imap/IMAPUtils.cpp', N + 'imap/IMAPSearchAttributes.cpp', N + 'pop3/POP3Command.cpp',
   N + 'smtp/SMTPCommand.cpp', N + 'sendmail/sendmailTransport.cpp'],
  [('IMAPUtils::quoteString', N + 'imap/IMAPUtils.cpp'), ('IMAPCommand::LOGIN', N + 'imap/IMAPCommand.cpp'),
   ('internalSend', N + 'sendmail/sendmailTransport.cpp')],
  observe=['lines written to the socket', 'arguments of the sendmail process'],
  technique='all-paths checks of the command constructors, taint analysis to the command text, path-sensitive character '
            'analysis of the quoting function',
  note='Texts that are IMAP syntax by contract (sequence sets, fetch and store parameters, SASL mechanism names) and names of '
       'header fields to fetch are not required to be quoted, only to be free of line breaks.')

P('C06', 'A failed server reply never counts as success',
  'When an SMTP, POP3 or IMAP server answers a command with a failure (4xx/5xx, -ERR, NO, BAD), the operation that sent '
  'the command fails with an exception: it does not return normally, and no caller inside the library swallows that '
  'exception. Every IMAP or POP3 command that is sent has its reply read before the operation returns. The only '
  'exceptions are documented fallbacks (EHLO to HELO, APOP or SASL to a plain login, optional STARTTLS), optional '
  'capability queries, existence probes and the commands sent while disconnecting.',
  ['inputs', 'histories'], 'all operations of the network services, all replies a server may send, at every point of a '
  'dialogue', 'Tests script a handful of dialogues against a mock socket, nearly all successful; most operations are never '
  'run against a failing reply.',
  [N + 'smtp', N + 'pop3', N + 'imap'],
  [('reply status tests after each readResponse', N + 'imap/IMAPFolder.cpp'),
   ('POP3Response::isSuccess tests', N + 'pop3/POP3Folder.cpp'), ('SMTPResponse::getCode tests', N + 'smtp/SMTPTransport.cpp')],
  observe=['exceptions leaving the public operations'],
  technique='path-sensitive assumption analysis per reply site, obligations propagated over the call graph',
  note='Decided for every reply-reading site of both build configurations and every caller, interprocedurally. Trusted: the '
       'list of primitive reply readers, the table of best-effort replies and fallbacks (printed in the evidence), '
       'and that exceptions raised are not caught outside the library.')

P('C07', 'Operations outside their required state fail before any effect',
  'An operation on a folder, store or transport that needs an open folder, a folder opened for writing, a closed folder, a '
  'live store, a connected or a not-yet connected service fails with an exception when that condition does not hold. It '
  'then has sent nothing, touched no file, started no process and announced no event.',
  ['histories'], 'all sequences of public operations, for the IMAP, POP3, maildir, SMTP and sendmail services',
  'Tests call operations in their proper order; misuse of almost every operation is untested.',
  [N + 'imap/IMAPFolder.cpp', N + 'pop3/POP3Folder.cpp', N + 'maildir/maildirFolder.cpp', N + 'smtp/SMTPTransport.cpp'],
  [('state tests at the head of each operation', N + 'imap/IMAPFolder.cpp')],
  state=[('open flag / mode', 'whether and how the folder is open', N + 'maildir/maildirFolder.hpp'),
         ('store reference', 'whether the parent store still exists', N + 'folder.hpp')],
  observe=['exceptions', 'bytes on the socket', 'file system', 'folder events'],
  technique='path-sensitive reachability of effects from an entry state that violates the precondition',
  note='Decided for every public operation of every concrete service class. Trusted: the table saying which operation needs '
       'which state, and the list of effect primitives (socket, file, process, notification).')

P('C08', 'Events and cached folder state follow what the server or file system did',
  'An operation of an IMAP, POP3 or maildir folder or message that fails (refused by the server, connection lost, file operation '
  'failed) announces no event and leaves the cached state as it was: message count, message numbers, flags, deleted and expunged '
  'marks, list of messages, path and name, open state. Events are announced and state is changed only after the operation has '
  'succeeded. An operation that succeeds announces its event: creating, deleting and renaming a folder the folder event of that '
  'type, and POP3 and maildir operations on messages theirs; what the reply to an IMAP operation on messages reports besides (new, '
  'expunged and changed messages) is always taken into account. Expunged messages lower the message count, new messages are '
  'numbered after the ones that were there, unread counts count messages not seen, and when a folder is renamed the folders below '
  'it keep the rest of their path.',
  ['histories', 'fault_sequences'], 'all paths of the public operations of the folders and messages of the three protocols, with '
  'every reply good, bad or missing, and every file operation failing or not',
  'A test would have to let each reply and each file operation of each operation fail, with other folders and listeners present.',
  ['src/vmime/net/imap', 'src/vmime/net/pop3', 'src/vmime/net/maildir', 'src/vmime/net/folder.cpp'],
  [('IMAP folder', N + 'imap/IMAPFolder.cpp'), ('POP3 folder', N + 'pop3/POP3Folder.cpp'), ('maildir folder', N + 'maildir/maildirFolder.cpp')],
  state=[('cached state', 'counts, numbers, flags, list, path of a folder', N + 'maildir/maildirFolder.hpp'),
         ('status', 'what the IMAP server last said about the folder', N + 'imap/IMAPFolderStatus.hpp')],
  observe=['events', 'message counts and numbers', 'paths', 'exceptions of operations'],
  technique='path-sensitive interprocedural dataflow over the outcome of replies and file operations, up to every announcement and '
            'every assignment to cached state; structural queries for counts, numbers and paths',
  note='Single message files that cannot be renamed or removed are passed over by maildir expunge() and setMessageFlags(), and '
       'what cannot be removed by destroy() is left behind: these are treated as done, as the code says. Replies to CREATE, '
       'DELETE, LIST, STATUS, to FETCH of UIDs and of message contents are not searched for other news.')

P('C09', 'Replies stay matched with commands, and message data stays in its frame',
  'On an SMTP, POP3 or IMAP connection, every command (or line of an authentication exchange) is sent when the reply to the one '
  'before has been read, except for the commands of one pipelined SMTP set; a reply is awaited only when a command asks for one, '
  'and a POP3 reply is read as a list exactly for the commands that are answered with a list. Message data is sent only when the '
  'server has asked for it (DATA accepted, continuation request after APPEND), goes through the dot filter in SMTP, which is '
  'flushed before the end mark is sent, and is followed by its end mark before any other command. Every public operation returns, '
  'or fails, either with each reply to what it sent read and all message data ended, or with the connection closed: in particular '
  'when a pipelined command is refused, and when the input stream of the message throws.',
  ['histories', 'fault_sequences'], 'all paths of the public operations of the transport, store, connection, folder and message '
  'classes of the three protocols, with every reply good or bad and every message stream failing or not',
  'A reply left unread shows in the operation that comes next, after a particular refusal or failure; tests make few of them.',
  ['src/vmime/net/smtp', 'src/vmime/net/pop3', 'src/vmime/net/imap'],
  [('SMTP sending', N + 'smtp/SMTPTransport.cpp'), ('POP3 exchanges', N + 'pop3/POP3Folder.cpp'), ('APPEND', N + 'imap/IMAPFolder.cpp')],
  state=[('exchange', 'commands whose replies are to be read, message data begun and not ended', N + 'smtp/SMTPTransport.cpp')],
  observe=['commands and data sent', 'replies attributed to operations'],
  technique='path-sensitive interprocedural typestate of the connection (command outstanding, list awaited, data open, closed)',
  note='A connection on which sending or receiving fails is not used again. Output streams given to extract() do not throw; '
       'the replies to BDAT commands are not counted.')

P('C10', 'Copying or cloning an object reproduces all of its state',
  'Copying, assigning or cloning a message component, content handler, encoding, exception, context or other value '
  'object of the library reproduces every data member, so that nothing of the source is lost, and the copy shares no '
  'sub-component with the source. A container is emptied before it takes over the elements of another one; assigning '
  'an object to itself changes nothing; a clone has the class of its source; a class that owns raw memory defines copy '
  'construction and assignment.',
  ['inputs'], 'all value classes and all their members', 'Tests compare a few fields of a few copies; most classes and members are '
  'never copied in a test.',
  ['src/vmime'], [('copyFrom / operator= / clone implementations', 'src/vmime/body.cpp')],
  observe=['members of the copy'],
  technique='member-wise dataflow over every copy constructor, assignment, copyFrom and clone, callees included',
  note='Decided for every class with a user-written copy operation. Trusted: that a member copied from the same member of '
       'the source is copied correctly, and the tables SKIP/FACTORY/NOT_VALUES in vmsa/rules/C10.py (identity members such as parent pointers '
       'and mutexes).')

P('C11', 'The component tree lists every child exactly once',
  'Each component of a message lists, as its child components, every component it owns, exactly once: nothing that is present is '
  'left out or listed twice. Operations that walk the tree (shifting the parsed positions, the default size estimate) reach every child.',
  ['inputs', 'programs'], 'all component classes and all contents of a component',
  'Tests look at the children of a few objects; positions of deep components after a parse from a stream are hardly looked at.',
  ['src/vmime'], [('getChildComponents()', 'src/vmime/bodyPart.cpp'), ('tree walks', 'src/vmime/component.cpp')],
  observe=['getParsedOffset() of nested components'],
  technique='must-analysis of list construction over all paths, ownership taken from the member types',
  note='Owned components are the members that are shared pointers to components or containers of them. Words of display names are '
       'held by value and are no children.')

P('C12', 'Parsers and generators report where they stopped',
  'Every parsing and generating function of message components: when the caller passes a pointer to receive the new position (or the new line '
  'position), it has been written on every normal return; when the caller passes none, it is never dereferenced. After parsing, the '
  'parsed bounds of the component have been set, and what is reported is a position in the buffer that was parsed.',
  ['inputs'], 'all paths of all parsing and generating functions, with and without an output position',
  'Tests mostly pass no output position, and reach few of the error and early-return paths of the parsers.',
  ['src/vmime'], [('parseImpl()', 'src/vmime/emailAddress.cpp'), ('generateImpl()', 'src/vmime/body.cpp'), ('positions', 'src/vmime/component.cpp')],
  observe=['newPosition, newLinePos', 'getParsedOffset(), getParsedLength()'],
  technique='path-sensitive must-write and null flow analysis plus affine typing of positions',
  note='A parser that finds nothing and returns a null object may leave the position alone. That the position is the right one is decided only as far as '
       'absolute positions and distances are told apart.')

P('C13', 'A constructed object has no uninitialised member',
  'After any constructor of a library class has returned, every member of arithmetic, boolean, enumeration or pointer '
  'type has a determinate value, whatever the constructor arguments were (a text that does not parse included). A local '
  'object of a class without constructor is filled in before it is used as a whole.',
  ['inputs'], 'all constructors, all arguments', 'An uninitialised member often holds a plausible value by chance, and the tests '
  'do not run under a memory checker.',
  ['src/vmime'], [('constructor initialisers', 'src/vmime/dateTime.cpp')], observe=['values of members'],
  technique='must-write analysis of all constructors with the functions they call',
  note='Decided for every constructor. Arrays of scalars (raw buffers) are exempt.')

P('C14', 'Tables, keywords and registered names have their standard values',
  'The fixed tables of the library have the values the standards define: the Base64 alphabet and its decoding table, the '
  'hexadecimal digits of quoted-printable, URL and parameter escapes, the alphabet of IMAP mailbox names, the names of days and '
  'months, the lengths of months, the offsets of the named and the military time zones. A keyword is translated to the value it '
  'names, and back to the same keyword: message flags in maildir file names and in IMAP commands and replies, special uses of '
  'IMAP folders, ways to change flags, items to fetch, keywords of IMAP replies. Encodings, digests and header fields are '
  'registered under the names of the classes that handle them; builders of IMAP, POP3 and SMTP commands and of IMAP search keys '
  'send the command they are named after; named constants have the value they name; each protocol has its standard default '
  'ports with and without TLS.',
  ['inputs'], 'all entries of the tables, all words of the vocabularies, all registrations', 'Tests use a few entries of each '
  'table, usually from plain English messages and one server; most words only appear in replies of particular servers or in '
  'messages of particular agents.',
  ['src/vmime'], [('time zones', 'src/vmime/dateTime.cpp'), ('maildir flags', N + 'maildir/maildirUtils.cpp'),
                  ('IMAP flags and attributes', N + 'imap/IMAPUtils.cpp'), ('Base64 tables', 'src/vmime/utility/encoder/b64Encoder.cpp'),
                  ('registrations', 'src/vmime/headerFieldFactory.cpp'), ('constants', 'src/vmime/constants.cpp')],
  observe=['decoded and generated text', 'commands sent', 'flags and attributes of messages and folders'],
  technique='evaluation of the conditions over each statement of the translating functions for each word; comparison of constant '
            'tables, registrations and names with the standard values',
  note='A keyword that is translated by other means than conditions, switches or constant tables is not looked at. One known '
       'finding: the header field requested for CONTENT_INFO (a test requires the wrong name).')

P('C15', 'Every acquired resource is released exactly once, on every path',
  'Whatever the library acquires - objects and arrays made with new, buffers handed out by the SASL layer or by a C library, '
  'file descriptors, sockets and pipes, directory handles, address lists, TLS sessions, certificates and other OpenSSL, GnuTLS '
  'and GSASL handles, conversion descriptors - is released exactly once with the matching function, whether the function '
  'ends normally or by an exception, or is handed over to an owner (smart pointer, container, caller, member). An object '
  'that keeps a resource in a member releases it in its destructor, when its constructor fails and before it overwrites '
  'the member, and does not keep the dead value of a resource it has released elsewhere. A released resource is not used.',
  ['inputs', 'fault_sequences'], 'all acquisitions in src/vmime that are not made through a smart pointer; every failure of a system '
  'call, library call or application-supplied object on the way',
  'A leak or a double release needs a failure at a particular point and is invisible to assertions; the tests make nothing fail.',
  ['src/vmime/platforms/posix', N + 'tls', 'src/vmime/security', N + 'imap/IMAPConnection.cpp', 'src/vmime/charsetConverter_iconv.cpp'],
  [('createFile', 'src/vmime/platforms/posix/posixFile.cpp'), ('connect, resolve', 'src/vmime/platforms/posix/posixSocket.cpp'),
   ('authenticateSASL', N + 'smtp/SMTPConnection.cpp'), ('createSSLHandle', N + 'tls/openssl/TLSSocket_OpenSSL.cpp'),
   ('write, verify', 'src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp')],
  state=[('m_ssl, m_gnutlsSession, m_desc, m_pipe, m_fd, m_dir, m_pendingBuffer, m_argArray', 'resources held by objects', 'the classes of the same files')],
  observe=['descriptors and memory held by the process', 'double releases'],
  technique='ownership typestate of every acquisition over all normal and exceptional paths, and of every member that receives one',
  note='One acquisition at a time is followed per function, helpers of the class inlined. Trusted: the table of acquiring and '
       'releasing C functions; memory exhaustion (bad_alloc) is not modelled; resources given to a container or a foreign object are taken '
       'to be owned by it.')

P('C16', 'Reads and writes account for every byte; errors are never byte counts',
  'Functions that send or write a buffer return normally only when all of it was handed to the system or to the TLS library, in order and '
  'without repetition; a non-blocking write reports exactly the number of bytes taken. Functions that receive or read '
  'never report an error of recv(), read(), SSL_read() or gnutls_record_recv() as a number of bytes: they throw, or '
  'report 0 with a would-block status. Code that copies data passes on exactly the bytes that the last read delivered, and '
  'bytes kept back for the next read (SASL layer) are delivered once, in order.',
  ['inputs', 'fault_sequences'], 'POSIX sockets, files and pipes, both TLS layers, the SASL layer, stream copies; every split '
  'into partial transfers and every error', 'Tests use in-memory streams and mock sockets that transfer everything at once '
  'and never fail.',
  ['src/vmime/platforms/posix', N + 'tls', 'src/vmime/security/sasl', 'src/vmime/utility'],
  [('send loop', 'src/vmime/platforms/posix/posixSocket.cpp'), ('record I/O', N + 'tls/openssl/TLSSocket_OpenSSL.cpp'),
   ('pending data', 'src/vmime/security/sasl/SASLSocket.cpp'), ('bufferedStreamCopy', 'src/vmime/utility/streamUtils.cpp')],
  state=[('m_pendingPos, m_pendingLen', 'decoded bytes not yet delivered', 'src/vmime/security/sasl/SASLSocket.hpp')],
  observe=['bytes transferred', 'returned counts'],
  technique='path-sensitive typestate of transfer results, buffer positions and remaining lengths',
  note='Decided on every path per outcome class of the transfer primitive (error, nothing, part, all). Trusted: the conventions of '
       'the C primitives; message-level framing (dot-stuffing, literals) is not part of it.')

P('C17', 'Waiting for the network always obeys the timeout handler',
  'While a service with a timeout handler waits for the network (resolving and connecting, TLS handshake and TLS writes, reading '
  'IMAP, POP3 and SMTP replies and literals, socket reads and writes), the handler is asked after every bounded wait that '
  'brought nothing. When isTimeOut() returns true, handleTimeOut() is called: if it returns false the operation fails with an '
  'exception at once, without waiting again; if it returns true the delay is restarted with resetTimeOut(). The delay '
  'is restarted when a wait begins and each time data arrives, so a slow but steady peer never times out.',
  ['inputs', 'schedules'], 'IMAP, POP3, SMTP readers, both TLS layers, POSIX sockets; all timings of the peer',
  'The tests install no timeout handler that ever expires, and their mock socket always has its data ready.',
  [N + 'imap', N + 'pop3', N + 'smtp', N + 'tls', 'src/vmime/platforms/posix'],
  [('IMAPParser::read, readLiteral', N + 'imap/IMAPParser.hpp'), ('readResponseImpl', N + 'pop3/POP3Response.cpp'),
   ('readResponseLine', N + 'smtp/SMTPResponse.cpp'), ('connect, resolve, waitForData', 'src/vmime/platforms/posix/posixSocket.cpp')],
  state=[('m_timeoutHandler', 'the handler to be asked', N + 'timeoutHandler.hpp')],
  observe=['calls on the timeout handler', 'operation_timed_out exceptions'],
  technique='typestate of the timeout protocol over all paths through the waiting loops, helpers inlined',
  note='Decided for every function that waits in a loop or asks the handler, with a handler installed. Trusted: one round of '
       'poll() or of a socket read is a bounded wait; the duration of other work between two rounds is not bounded.')

P('C18', 'No exception escapes a destructor or a C callback',
  'Destroying any object of the library never lets an exception escape, and neither does any function the library hands '
  'to a C library as a callback (the TLS transport callbacks).',
  ['programs', 'fault_sequences'], 'all destructors, callbacks and non-throwing functions, whatever fails underneath, '
  'including application-supplied objects',
  'An exception in a destructor needs a failing system or server at the moment of destruction, which no test produces.',
  ['src/vmime', N + 'tls'], [('catch-all handlers', N + 'imap/IMAPStore.cpp'),
                             ('exception capture in callbacks', N + 'tls/gnutls/TLSSocket_GnuTLS.cpp')],
  observe=['std::terminate'],
  technique='escaping-exception sets as a least fixpoint over the class-hierarchy call graph',
  note='Sound over the resolved call graph except for allocation failure and functions with C linkage, which are assumed '
       'not to throw.')

P('C19', 'A message appears in a maildir only when it is complete',
  'Adding a message to a maildir folder, or copying messages to it, writes each message to a new file of the tmp directory '
  '(created exclusively, an existing file is never taken over), and only after the source was read to its end and everything '
  'was written and flushed to the disk without an error is that file renamed to its name in cur or new. No message file is ever '
  'created or written under its final name. When reading the source, creating, writing, flushing or renaming the file fails, '
  'the operation fails with an exception, no message appears, and the temporary file has been removed.',
  ['fault_sequences', 'histories'], 'all paths of the operations of the maildir classes, with every file operation failing or not, '
  'and the POSIX file classes below them',
  'A test would have to make each file operation fail, or stop the process between two of them.',
  ['src/vmime/net/maildir', 'src/vmime/platforms/posix/posixFile.cpp'],
  [('delivery', N + 'maildir/maildirFolder.cpp'), ('files', 'src/vmime/platforms/posix/posixFile.cpp')],
  state=[('temporary file', 'created, written, flushed, renamed, removed', N + 'maildir/maildirFolder.cpp')],
  observe=['files in tmp, new and cur', 'exception of addMessage() and copyMessages()'],
  technique='path-sensitive interprocedural typestate of the temporary file, with the directory a path belongs to propagated '
            'through variables, parameters and file objects',
  note='A path whose directory the analysis cannot tell is not judged. That every byte read is written is decided by C28. '
       'Exceptions that are not vmime exceptions are out of scope (the code catches vmime::exception). '
       'posixFile::rename() is a known finding.')

P('C20', 'Operations on objects whose parent is gone throw instead of crashing',
  'A folder, message, message part, connection or authenticator object that outlives the store, folder, message or service '
  'it belongs to never dereferences the pointer to it: operations that need it throw an exception. In the same way an optional handler '
  '(time-out handler, tracer, or their factories) that was not set is never dereferenced.',
  ['histories'], 'all lifetimes of store, folder, message and part objects; all combinations of optional handlers',
  'Tests keep every parent alive for the whole test and mostly set no handlers at all.',
  [N + 'imap', N + 'pop3', N + 'maildir', N + 'smtp', 'src/vmime/security'],
  [('lock() of weak references', N + 'imap/IMAPMessage.cpp'), ('optional time-out handlers', N + 'tls')],
  state=[('weak references', 'parents of objects', N + 'maildir/maildirMessage.hpp')],
  observe=['null dereference'],
  technique='null-pointer flow analysis of weak references and optional getters',
  note='Decided for every use in every function, private helpers in the context of their callers. Trusted: the parent is not destroyed '
       'by a callback in the middle of an operation; two exempted internal functions (vmsa/rules/C20.py).')

P('C21', 'Progress listeners see start, progress and stop in order',
  'An operation that is given a progress listener reports to it: it calls start() once before progress(), progress() only '
  'between start() and stop(), and stop() exactly once before the operation returns normally, on every path (empty input and '
  'early returns included); or it hands the listener to the operation that does the work, and not to one more while it reports '
  'itself. It does not do the work without informing the listener it was given. A listener adapter passes every call on once. '
  'A null listener is accepted everywhere and never called.',
  ['inputs', 'histories'], 'all functions and members of the library that receive or hold a progress listener; paths without '
  'exception', 'Tests almost never pass a listener, and a missing call on one path does not change the result of the operation.',
  ['src/vmime'], [('listener interface', 'src/vmime/utility/progressListener.hpp'), ('encoders', 'src/vmime/utility/encoder/qpEncoder.cpp'),
                  ('stream copy', 'src/vmime/utility/streamUtils.cpp'), ('folders', N + 'maildir/maildirFolder.cpp')],
  observe=['calls received by the listener'],
  technique='typestate analysis of the listener over all paths, with the functions it is handed to, once set and once null',
  note='Paths that end by an exception are not required to call stop(). An object that takes the listener in its constructor and '
       'reports from several methods is only checked for calls through a null pointer.')

P('C24', 'Parsers, decoders and stream adapters access memory in bounds',
  'Whatever the input and however it is cut into pieces, no function of the library reads or writes a string, array, buffer or '
  'container outside its bounds: an index or pointer stays inside the object, a (pointer, count) pair or an iterator range handed '
  'to another function or to the C library lies inside the buffer, positions never wrap below zero, and a stream that is asked for '
  'at most n bytes writes and returns at most n.',
  ['inputs'], 'all texts, encoded words, responses and byte streams; all block sizes and ways to cut the input',
  'Each test reads a few inputs in which the text ends in ordinary places; a read of one byte too many returns what happens to be there.',
  ['src/vmime', 'src/vmime/utility', 'src/vmime/utility/encoder', 'src/vmime/net'],
  [('encoded words', 'src/vmime/word.cpp'), ('header fields', 'src/vmime/headerField.cpp'), ('dates', 'src/vmime/dateTime.cpp'),
   ('transfer encodings', 'src/vmime/utility/encoder/uuEncoder.cpp'), ('stream adapters', 'src/vmime/utility/inputStreamStringAdapter.cpp'),
   ('IMAP replies', N + 'imap/IMAPParser.hpp')],
  state=[('positions and sizes', 'difference constraints between the variables of each function', 'vmsa/zones.py')],
  observe=['out-of-bounds access', 'wrapped position', 'overlong read'],
  technique='abstract interpretation: zones (difference constraints) over positions, sizes and pointers with function contracts and class invariants',
  note='Reported when the relation between position and size is known and does not exclude a position outside. Accesses of whose '
       'position nothing is known, and those listed in UNDECIDED of vmsa/rules/C24.py, are counted as not decided. The platform '
       'layer, ICU converter and SHA-1 are not analysed.')

P('C25', 'Optional parts of an IMAP reply are tested before use',
  'Whatever the IMAP server sends, the client never dereferences an optional part of a parsed reply that the reply does not '
  'have: every use of a part that the reply grammar makes optional (an untagged reply of another kind, a missing tagged reply, '
  'an empty attribute list, a section without text, ...) is covered by a test that excludes the replies without it.',
  ['inputs', 'histories'], 'all replies that the reply parser accepts, at every point where the client reads a reply',
  'The IMAP tests parse a few well-formed lines; the choice of reply is up to the server at each step.',
  [N + 'imap'], [('grammar components', N + 'imap/IMAPParser.hpp'), ('reply consumers', N + 'imap/IMAPFolder.cpp'),
                 ('message attributes', N + 'imap/IMAPMessage.cpp')],
  state=[('optional parts', 'std::unique_ptr members of IMAPParser components', N + 'imap/IMAPParser.hpp')],
  observe=['null dereference'],
  technique='shape inference of parsed components plus null-pointer flow analysis of their uses',
  note='Each parseImpl() yields the set of alternatives a successful parse can leave; each dereference is compared with the '
       'alternatives left by the tests on the path. Emptiness of the list members is not decided.')

P('C26', 'A parser looks only at the part of the text it was given',
  'A parser given a text and a part [position, end) of it reads no character outside its part (neither before position nor at or after end), hands only '
  'parts of its own part to other parsers, and gives back a new position between position and end, so that what follows a '
  'header field, address or encoded word never changes how it is understood and nothing is skipped or read twice.',
  ['inputs'], 'all texts, all positions, all ends including those inside a token',
  'The tests mostly parse whole strings, where the terminating NUL hides a read at the end of the part.',
  ['src/vmime'], [('header fields', 'src/vmime/headerField.cpp'), ('mailboxes', 'src/vmime/mailbox.cpp'), ('dates', 'src/vmime/dateTime.cpp'),
   ('parameters', 'src/vmime/parameterizedHeaderField.cpp'), ('addresses', 'src/vmime/address.cpp'), ('words', 'src/vmime/word.cpp')],
  state=[('position in the part', 'difference constraints between the variables of each parser', 'vmsa/zones.py')],
  observe=['character outside the part', 'new position outside the part'],
  technique='abstract interpretation: zones (difference constraints) with the part of the text as contract of each parser',
  note='Parsers of strings (string, position, end); parsers that read from a stream are covered by C24 only. Exempted: three obligations '
       'in word.cpp (loops that end at one of two places).')

P('C27', 'Distinct objects share no hidden mutable state',
  'Objects that do not refer to each other can be used in different threads: apart from the public registration and set '
  'functions (register..., unregister..., set...), no library function modifies a variable with static storage, or an object '
  'that is shared by everything (a factory or registry, its entries, the platform handler, a default context, a service '
  'information object), or calls a C function that works on storage shared by the whole process, unless the variable is '
  'thread-local, atomic or protected by a lock.',
  ['schedules', 'histories'], 'all functions of the library, all interleavings of threads that use distinct objects',
  'The tests run in one thread, where shared scratch storage gives the right results.',
  ['src/vmime'], [('default contexts', 'src/vmime/parsingContext.cpp'), ('platform handler', 'src/vmime/platform.cpp'),
                  ('encoder registry', 'src/vmime/utility/encoder/encoderFactory.cpp'),
                  ('random numbers', 'src/vmime/utility/random.cpp')],
  state=[('shared variables', 'variables with static storage and the objects they own', 'src/vmime')],
  observe=['data race', 'result of one object changed by the use of another'],
  technique='effect analysis: writes to static storage and to objects reachable from it, through aliases and accessors',
  note='Objects handed out by a factory are assumed to be new: a default encoder set by the application is shared by its '
       'choice. State inside the C library, OpenSSL and GnuTLS is not analysed.')

P('C28', 'Streams pass on every byte once, in order, however the data is split',
  'However the data is split into write() calls or comes out of read() calls, a byte is neither lost, nor duplicated, nor '
  'reordered: an output stream that filters or buffers its data (dot-stuffing, CRLF to LF, SMTP chunking) passes on every byte '
  'it is given, apart from those its translation adds or removes, keeps the last byte for the next call, and writes what it '
  'held back when it is flushed; a dot that follows a line feed is doubled; BDAT announces exactly the bytes that are sent; '
  'what is read from a stream to be copied elsewhere (stream copies, IMAP APPEND, maildir delivery and extraction, POP3 '
  'responses, certificate import) is passed on completely before more is read, and the copy ends at eof() or at the given '
  'length, not because one read() returned less; the position of an in-memory or region input stream moves by exactly the '
  'bytes returned, and these are the bytes at that position.',
  ['inputs', 'histories'], 'all data, all ways to split it, all paths through the writers and copy loops',
  'The tests write whole messages or a few pieces into the filters and never make read() return short.',
  ['src/vmime/utility/filteredStream.cpp', 'src/vmime/utility/streamUtils.cpp', 'src/vmime/utility', 'src/vmime/net'],
  [('dot-stuffing filter', 'src/vmime/utility/filteredStream.cpp'), ('stream copy', 'src/vmime/utility/streamUtils.cpp'),
   ('chunking buffer', N + 'smtp/SMTPChunkingOutputStreamAdapter.cpp'), ('APPEND', N + 'imap/IMAPFolder.cpp'),
   ('region of a stream', 'src/vmime/utility/seekableInputStreamRegionAdapter.cpp')],
  state=[('last byte', 'm_previousChar of the filters', 'src/vmime/utility/filteredStream.hpp'),
         ('fill level', 'm_bufferSize of the chunking stream', N + 'smtp/SMTPChunkingOutputStreamAdapter.hpp'),
         ('position', 'm_pos, m_position of input streams', 'src/vmime/utility')],
  observe=['bytes given to the next stream or to the socket', 'bytes returned by read()'],
  technique='abstract interpretation: ghost positions (passed on, read, buffered, announced) related to the variables of the '
            'program by difference constraints and sums, over the control flow, file-local helpers inlined',
  note='The values of the bytes are not modelled beyond comparisons with a constant. Filters whose output is longer than their '
       'input by rule (charset, LF to CRLF), transfer encoders, the input filters of POP3 and the loops around system calls '
       '(C16) are not covered; a zero read inside an encoder counts as the end of its data.')

P('C29', 'What is parsed and generated does not depend on the locale of the program',
  'Whatever global locale the program has set (std::locale::global() or setlocale()), the library writes and reads the same text: '
  'a number that is written into or read from a header field, a command, a response, a URL, a property, an identifier or a file '
  'name goes through a stream that has the classic locale (no grouping of digits), and character classes, case conversion and '
  'case-insensitive comparison follow the classic locale.',
  ['inputs', 'histories'], 'all global locales, all numbers and texts',
  'The tests run in the classic locale, in which a missing imbue() or a call of isalpha() makes no difference.',
  ['src/vmime', 'src/vmime/net', 'src/vmime/utility'],
  [('dates', 'src/vmime/dateTime.cpp'), ('IMAP commands', N + 'imap/IMAPCommand.cpp'), ('POP3 commands', N + 'pop3/POP3Command.cpp'),
   ('URLs', 'src/vmime/utility/url.cpp'), ('properties', 'src/vmime/propertySet.hpp'), ('case conversion', 'src/vmime/utility/stringUtils.cpp')],
  state=[('global locale', 'the locale a new stream starts with', 'C++ and C library')],
  observe=['text of header fields and commands', 'numbers and keywords recognised in input'],
  technique='path-sensitive typestate: a string stream must be given the classic locale on all paths before a number passes through it '
            '(followed through parameters to callers and from members to constructors); effect lint of functions that read the global locale',
  note='Texts that only go to the protocol trace or into the message of an exception, and conversions with at most three digits (bytes), '
       'are exempt. Templates of the headers are instantiated by extract/templates.cpp so that their bodies are analysed.')

P('C30', 'Names that are not case-sensitive match in whatever case they are written',
  'The case in which a name or keyword is written makes no difference where the standards say it has no meaning: names of header '
  'fields and of their parameters (also of the sections of one parameter), types and sub-types of media, charsets, transfer '
  'encodings, content dispositions, disposition modifiers, the report type of an MDN, keywords of Received, IMAP and SMTP '
  'responses, capabilities and SMTP extensions, the names under which encoders, digests, SASL mechanisms, services and header '
  'fields are registered, and names of properties are found, compared and set alike in lower, upper and mixed case; a keyword of '
  'Received is recognised as a whole word only.',
  ['inputs', 'histories'], 'all spellings of these names, set, parsed or received',
  'The tests use the usual spelling and a few others; each lookup and each setter would have to be tried in several.',
  ['src/vmime', 'src/vmime/net', 'src/vmime/security', 'src/vmime/utility'],
  [('header fields', 'src/vmime/header.cpp'), ('parameters', 'src/vmime/parameterizedHeaderField.cpp'), ('media types', 'src/vmime/mediaType.cpp'),
   ('encodings', 'src/vmime/encoding.cpp'), ('IMAP keywords', N + 'imap/IMAPParser.hpp'), ('SMTP extensions', N + 'smtp/SMTPConnection.cpp'),
   ('registered digests', 'src/vmime/security/digest/messageDigestFactory.hpp')],
  state=[('normalised name', 'm_name, m_type, m_subType and keys of tables', 'src/vmime')],
  observe=['results of comparisons and lookups', 'recognised keywords'],
  technique='abstract interpretation of the case of strings (lower, upper, any) through members to all their assignments, accessors, '
            'containers and parameters of internal functions; every comparison and every key of a table is an obligation',
  note='Only the case is followed, not the other letters. Mailbox names (INBOX) and values of properties other than booleans are data '
       'here. Comparisons by character are only covered in the IMAP parser.')

NAWHY = 'The tests sample a few values.'
def NA(id, title, st, over, text, files, why):
    P(id, title, st, over, text, NAWHY, files, [], na=why)

NA('C80', 'Generated messages parse back to an equal message',
   'Parsing the text generated from any message yields a message with the same headers, parts and bodies.',
   ['inputs'], 'all messages', ['src/vmime/message.cpp'],
   'equality of values produced by parser and generator for every message: a functional round trip over strings that no '
   'static rule in reach can bound; structural clauses of it are claimed separately (C10 to C13)')
NA('C81', 'Encoders and decoders are inverse to each other',
   'Decoding the output of the base64, quoted-printable or uuencode encoder returns the original bytes for every input '
   'and every split of the input.', ['inputs'], 'all byte sequences', ['src/vmime/utility/encoder'],
   'numeric equality of transformed byte streams; only the agreement of the constant tables is structural (C14)')
NA('C82', 'Folded header lines keep their meaning and respect the line limit',
   'Header fields longer than the limit are folded so that unfolding gives the same value and no line exceeds the limit '
   'unless a single word does.', ['inputs'], 'all field values', ['src/vmime/word.cpp'],
   'depends on runtime lengths and break positions')
NA('C83', 'Charset conversion preserves text',
   'Converting text to another charset and back preserves every representable character, whatever the chunking.',
   ['inputs'], 'all texts, all chunkings', ['src/vmime/charsetConverter_iconv.cpp'],
   'a property of the conversion results computed by iconv/ICU at run time')
NA('C84', 'Dates denote the same instant after zone conversion',
   'Converting a date to another zone never changes the instant it denotes.', ['inputs'], 'all dates and zones',
   ['src/vmime/utility/datetimeUtils.cpp'], 'calendar arithmetic on runtime values')
NA('C85', 'Parsing any input terminates without exhausting the stack',
   'Parsing terminates and uses bounded stack for every input.', ['inputs'], 'all inputs', ['src/vmime/parserHelpers.hpp'],
   'recursion depth and loop progress depend on the nesting and content of the input')
