// A minimal POP3 server with three messages.
struct popServer {
	std::function <bool(const std::string& l, std::string& out)> hook;
	std::string operator()(const std::string& l) {
		std::string o;
		if (hook && hook(l, o)) return o;
		if (starts(l, "CAPA")) return "+OK\r\nUSER\r\nTOP\r\nUIDL\r\n.\r\n";
		if (starts(l, "STAT")) return "+OK 3 300\r\n";
		if (l == "LIST") return "+OK\r\n1 100\r\n2 100\r\n3 100\r\n.\r\n";
		if (l == "UIDL") return "+OK\r\n1 a\r\n2 b\r\n3 c\r\n.\r\n";
		return "+OK\r\n";
	}
};

static popServer* PS = new popServer;

static vmime::shared_ptr <vmime::net::store> popConnect() {
	S->greeting = "+OK ready\r\n";
	S->reply = [](const std::string& l) { return (*PS)(l); };
	vmime::shared_ptr <vmime::net::session> sess = vmime::net::session::create();
	vmime::shared_ptr <vmime::net::store> st = sess->getStore(vmime::utility::url("pop3://u:p@localhost"));
	st->setProperty("options.sasl", false);
	st->setProperty("options.apop", false);
	st->setSocketFactory(vmime::make_shared <mockFactory>());
	st->connect();
	return st;
}
