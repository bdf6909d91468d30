// A minimal IMAP server: one selectable mailbox with three messages.
struct imapServer {
	std::function <bool(const std::string& tag, const std::string& rest, std::string& out)> hook;
	bool tls = false;
	std::string operator()(const std::string& l) {
		std::string t = tagOf(l), r = restOf(l), o;
		if (hook && hook(t, r, o)) return o;
		if (starts(r, "CAPABILITY")) return "* CAPABILITY IMAP4rev1\r\n" + t + " OK done\r\n";
		if (starts(r, "LIST \"\" \"\"")) return "* LIST (\\Noselect) \"/\" \"\"\r\n" + t + " OK done\r\n";
		if (starts(r, "LIST")) return "* LIST () \"/\" \"INBOX\"\r\n" + t + " OK done\r\n";
		if (starts(r, "SELECT") || starts(r, "EXAMINE"))
			return "* 3 EXISTS\r\n* 0 RECENT\r\n* FLAGS (\\Seen \\Deleted)\r\n* OK [UIDVALIDITY 1] x\r\n" + t + " OK [READ-WRITE] done\r\n";
		return t + " OK done\r\n";
	}
};

static imapServer* IM = new imapServer;

static vmime::shared_ptr <vmime::net::store> imapConnect() {
	S->greeting = "* OK ready\r\n";
	S->reply = [](const std::string& l) { return (*IM)(l); };
	vmime::shared_ptr <vmime::net::session> sess = vmime::net::session::create();
	vmime::shared_ptr <vmime::net::store> st = sess->getStore(vmime::utility::url("imap://u:p@localhost"));
	st->setProperty("options.sasl", false);
	st->setSocketFactory(vmime::make_shared <mockFactory>());
	st->connect();
	return st;
}
