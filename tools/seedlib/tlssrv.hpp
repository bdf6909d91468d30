// In-process GnuTLS server behind the mock socket: call tlsSrv::begin() when the client has been told to start TLS.
// Decrypted lines go through S->lines / S->reply like clear ones. Link with -lgnutls.
#include <gnutls/gnutls.h>
#include <gnutls/x509.h>
#include "vmime/security/cert/certificateVerifier.hpp"

struct tlsSrv {
	static tlsSrv*& cur() { static tlsSrv* t = NULL; return t; }
	gnutls_session_t s; gnutls_certificate_credentials_t cred;
	std::string in, out, tail; bool done;
	static ssize_t push(gnutls_transport_ptr_t p, const void* d, size_t n) { ((tlsSrv*) p)->out.append((const char*) d, n); return n; }
	static ssize_t pull(gnutls_transport_ptr_t p, void* d, size_t n) {
		tlsSrv* t = (tlsSrv*) p;
		if (t->in.empty()) { gnutls_transport_set_errno(t->s, EAGAIN); return -1; }
		if (n > t->in.size()) n = t->in.size();
		memcpy(d, t->in.data(), n); t->in.erase(0, n); return n;
	}
	static void begin() { cur() = new tlsSrv; S->raw = true; }
	tlsSrv() : done(false) {
		gnutls_x509_privkey_t key; gnutls_x509_crt_t crt;
		gnutls_x509_privkey_init(&key); gnutls_x509_privkey_generate(key, GNUTLS_PK_RSA, 2048, 0);
		gnutls_x509_crt_init(&crt); gnutls_x509_crt_set_version(crt, 3);
		gnutls_x509_crt_set_dn(crt, "CN=mock", NULL); gnutls_x509_crt_set_key(crt, key);
		gnutls_x509_crt_set_serial(crt, "\1", 1);
		gnutls_x509_crt_set_activation_time(crt, time(NULL) - 1000); gnutls_x509_crt_set_expiration_time(crt, time(NULL) + 100000);
		gnutls_x509_crt_sign2(crt, crt, key, GNUTLS_DIG_SHA256, 0);
		gnutls_certificate_allocate_credentials(&cred);
		gnutls_certificate_set_x509_key(cred, &crt, 1, key);
		gnutls_init(&s, GNUTLS_SERVER); gnutls_set_default_priority(s);
		gnutls_credentials_set(s, GNUTLS_CRD_CERTIFICATE, cred);
		gnutls_transport_set_ptr(s, this);
		gnutls_transport_set_push_function(s, push); gnutls_transport_set_pull_function(s, pull);
	}
	void say(const std::string& r) { if (!r.empty()) gnutls_record_send(s, r.data(), r.size()); flush(); }
	void flush() { S->pending += out; out.clear(); }
	// bytes written by the client on the plain socket
	void feed(const char* d, size_t n) {
		in.append(d, n);
		if (!done) {
			int r = gnutls_handshake(s);
			if (r == 0) done = true;
			flush();
			if (!done) return;
		}
		char b[20000];
		ssize_t r;
		while ((r = gnutls_record_recv(s, b, sizeof(b))) > 0) {
			tail.append(b, r);
			size_t p;
			while ((p = tail.find('\n')) != std::string::npos) {
				std::string l = tail.substr(0, p);
				tail.erase(0, p + 1);
				if (!l.empty() && l[l.size() - 1] == '\r') l.erase(l.size() - 1);
				S->lines.push_back("TLS:" + l);
				if (S->reply) say(S->reply(l));
			}
		}
	}
};

class tlsMockSocket : public mockSocket {
public:
	void send(const vmime::string& b) { put(b.data(), b.size()); }
	void send(const char* s) { put(s, std::strlen(s)); }
	void sendRaw(const vmime::byte_t* d, const vmime::size_t n) { put(reinterpret_cast <const char*>(d), n); }
	vmime::size_t sendRawNonBlocking(const vmime::byte_t* d, const vmime::size_t n) { sendRaw(d, n); return n; }
	void put(const char* d, size_t n) { if (tlsSrv::cur()) tlsSrv::cur()->feed(d, n); else feed(d, n); }
};
class tlsMockFactory : public vmime::net::socketFactory {
public:
	vmime::shared_ptr <vmime::net::socket> create() { return vmime::make_shared <tlsMockSocket>(); }
	vmime::shared_ptr <vmime::net::socket> create(const vmime::shared_ptr <vmime::net::timeoutHandler>&) { return create(); }
};
struct anyCert : vmime::security::cert::certificateVerifier {
	void verify(const vmime::shared_ptr <vmime::security::cert::certificateChain>&, const vmime::string&) {}
};
