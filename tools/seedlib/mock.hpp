// Scripted in-process peer for the demonstrations.
#include <functional>
#include <iostream>
#include <string>
#include <vector>
#include <cstring>
#include <cstdlib>
#include <new>
#include "vmime/vmime.hpp"

#define CHECK(c) do { if (!(c)) { std::cerr << "FAILED line " << __LINE__ << ": " #c << std::endl; return 1; } } while (0)

struct script {
	std::string greeting;
	// called with each complete line sent by the client (without CRLF); returns the bytes to send back
	std::function <std::string(const std::string&)> reply;
	std::vector <std::string> lines;
	std::string sent;       // everything the client wrote
	std::string tail;       // incomplete line
	std::string pending;    // bytes still to be read by the client
	bool raw = false;       // do not split into lines
	bool connected = false;
	size_t maxRead = 0;     // deliver at most that many bytes per read
};

static script* S = new script;

class mockSocket : public vmime::net::socket {
public:
	void connect(const vmime::string&, const vmime::port_t) { S->connected = true; S->pending += S->greeting; }
	bool isConnected() const { return S->connected; }
	void disconnect() { S->connected = false; }
	bool waitForRead(const int) { return true; }
	bool waitForWrite(const int) { return true; }
	void receive(vmime::string& b) {
		if (!S->connected) throw vmime::exceptions::socket_exception("closed");
		if (S->pending.empty()) { static int idle = 0; if (++idle > 200000) { std::cerr << "peer idle" << std::endl; _Exit(3); } }
		if (S->maxRead && S->pending.size() > S->maxRead) { b = S->pending.substr(0, S->maxRead); S->pending.erase(0, S->maxRead); }
		else { b = S->pending; S->pending.clear(); }
	}
	vmime::size_t receiveRaw(vmime::byte_t* d, const vmime::size_t n) {
		vmime::string b;
		size_t save = S->maxRead;
		S->maxRead = save && save < n ? save : n;
		receive(b);
		S->maxRead = save;
		std::memcpy(d, b.data(), b.size());
		return b.size();
	}
	void feed(const char* d, size_t n) {
		S->sent.append(d, n);
		if (S->raw) return;
		S->tail.append(d, n);
		size_t p;
		while ((p = S->tail.find('\n')) != std::string::npos) {
			std::string l = S->tail.substr(0, p);
			S->tail.erase(0, p + 1);
			if (!l.empty() && l[l.size() - 1] == '\r') l.erase(l.size() - 1);
			S->lines.push_back(l);
			if (S->reply) S->pending += S->reply(l);
		}
	}
	void send(const vmime::string& b) { feed(b.data(), b.size()); }
	void send(const char* s) { feed(s, std::strlen(s)); }
	void sendRaw(const vmime::byte_t* d, const vmime::size_t n) { feed(reinterpret_cast <const char*>(d), n); }
	vmime::size_t sendRawNonBlocking(const vmime::byte_t* d, const vmime::size_t n) { sendRaw(d, n); return n; }
	vmime::size_t getBlockSize() const { return 16384; }
	unsigned int getStatus() const { return 0; }
	const vmime::string getPeerName() const { return "mock"; }
	const vmime::string getPeerAddress() const { return "127.0.0.1"; }
	vmime::shared_ptr <vmime::net::timeoutHandler> getTimeoutHandler() { return vmime::shared_ptr <vmime::net::timeoutHandler>(); }
	void setTracer(const vmime::shared_ptr <vmime::net::tracer>& t) { m_t = t; }
	vmime::shared_ptr <vmime::net::tracer> getTracer() { return m_t; }
private:
	vmime::shared_ptr <vmime::net::tracer> m_t;
};

class mockFactory : public vmime::net::socketFactory {
public:
	vmime::shared_ptr <vmime::net::socket> create() { return vmime::make_shared <mockSocket>(); }
	vmime::shared_ptr <vmime::net::socket> create(const vmime::shared_ptr <vmime::net::timeoutHandler>&) { return create(); }
};

static inline bool starts(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }
static inline bool has(const std::string& s, const std::string& p) { return s.find(p) != std::string::npos; }

// IMAP: "<tag> COMMAND args" -> tag / rest
static inline std::string tagOf(const std::string& l) { return l.substr(0, l.find(' ')); }
static inline std::string restOf(const std::string& l) { size_t p = l.find(' '); return p == std::string::npos ? "" : l.substr(p + 1); }
