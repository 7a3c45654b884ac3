// Drives clients with several requests in flight against a server the test plays.
// Commands: proto <json|form|plain|bin8|bin16|bin32|be16|be32> <net|mem|probe>  (with WITH_TLS, net is encrypted)
//           request    respond <t> <ok|error|odd> <hex> <variant>    confuse <variant>
//           arrive <bytes>    half    tease    tease (sends a part of something encrypted, which makes nothing arrive)   poll <t>    get <t> <bytes at once>    close    gone    new
#include <iostream>
#include <map>
#include <optional>
#include <atomic>
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <linux/sockios.h>
#include "bomba_core.hpp"
#include "bomba_json.hpp"
#include "bomba_object.hpp"
#include "bomba_rpc_object.hpp"
#include "bomba_http.hpp"
#include "bomba_json_rpc.hpp"
#include "bomba_binary_protocol.hpp"
#ifdef WITH_TLS
#include <openssl/ssl.h>
#include <openssl/evp.h>
#include <openssl/x509.h>
#include "tls/tls_sync_client.hpp"
#else
#include "bomba_sync_client.hpp"
#endif
#include "vh.hpp"
using namespace Bomba;
#include "big_endian.hpp"
using vh::Ev;

static const char* nameOf(ServerReaction r) {
	return r == ServerReaction::OK ? "ok" : r == ServerReaction::READ_ON ? "read on" : r == ServerReaction::WRONG_REPLY ? "wrong" : "disconnect";
}

// The way to the server and back
struct Wire {
	std::string requests;             // not looked at by the server yet
	std::string queue;                // not delivered yet
	virtual ~Wire() = default;
	virtual ITcpClient& client() = 0;
	virtual void collectRequests() {}
	virtual void push(std::string_view data) = 0;
	virtual void shut() = 0;
	virtual void vanish() = 0;
	virtual bool blocking() const = 0;    // the client waits on its own
	bool closed = false;
	void deliver(size_t n) {
		n = std::min(std::max(n, begun()), queue.size());
		if (!n || closed) return;
		std::string piece = queue.substr(0, n);
		queue.erase(0, n);
		Ev("arrive").i("n", n).out();
		push(piece);
	}
	virtual void tease() {}
	virtual size_t begun() const { return 0; }    // how much has to be delivered at least
	void close() {
		if (closed) return;
		closed = true;
		shut();
		Ev("closed").out();
	}
	bool gone = false;
	// It doesn't take any more requests either
	void leave() {
		close();
		gone = true;
		vanish();
	}
	std::function<bool()> feed;       // brings more of the response that is waited for
};

#ifdef WITH_TLS
// A server with a key it made up
struct Secured {
	SSL_CTX* context = SSL_CTX_new(TLS_server_method());
	Secured() {
		EVP_PKEY* key = EVP_EC_gen("P-256");
		X509* certificate = X509_new();
		ASN1_INTEGER_set(X509_get_serialNumber(certificate), 1);
		X509_gmtime_adj(X509_getm_notBefore(certificate), -1000);
		X509_gmtime_adj(X509_getm_notAfter(certificate), 1000000);
		X509_set_pubkey(certificate, key);
		X509_NAME_add_entry_by_txt(X509_get_subject_name(certificate), "CN", MBSTRING_ASC, (const unsigned char*)"localhost", -1, -1, 0);
		X509_set_issuer_name(certificate, X509_get_subject_name(certificate));
		X509_sign(certificate, key, EVP_sha256());
		SSL_CTX_use_certificate(context, certificate);
		SSL_CTX_use_PrivateKey(context, key);
	}
	static Secured& instance() {
		static Secured made;
		return made;
	}
};

struct NetWire : Wire {
	int listening, conn = -1;
	std::optional<TlsSyncClient> real;
	SSL* ssl = SSL_new(Secured::instance().context);
	BIO* incoming = BIO_new(BIO_s_mem());
	BIO* outgoing = BIO_new(BIO_s_mem());
	std::thread accepting;
	std::string held;                  // encrypted but not sent entirely
	size_t teased = 0;                 // bytes of the queue that are in it
	bool transmit(size_t hold = 0) {
		char buffer[20000];
		int n;
		while ((n = BIO_read(outgoing, buffer, sizeof buffer)) > 0)
			held.append(buffer, n);
		size_t from = 0;
		while (held.size() - from > hold) {
			ssize_t sent = send(conn, held.data() + from, held.size() - from - hold, MSG_NOSIGNAL);
			if (sent <= 0) return false;
			from += sent;
		}
		held.erase(0, from);
		return true;
	}
	bool receive() {
		char buffer[4096];
		ssize_t n = recv(conn, buffer, sizeof buffer, 0);
		if (n <= 0) return false;
		BIO_write(incoming, buffer, n);
		return true;
	}
	NetWire() {
		SSL_set_bio(ssl, incoming, outgoing);
		SSL_set_accept_state(ssl);
		listening = socket(AF_INET, SOCK_STREAM, 0);
		sockaddr_in a{};
		a.sin_family = AF_INET;
		a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		socklen_t len = sizeof a;
		if (bind(listening, (sockaddr*)&a, sizeof a) || listen(listening, 4) || getsockname(listening, (sockaddr*)&a, &len))
			_exit(99);
		real.emplace("127.0.0.1", ntohs(a.sin_port));
		accepting = std::thread([this] {
			conn = accept(listening, nullptr, nullptr);
			if (conn < 0) return;
			int on = 1;
			setsockopt(conn, IPPROTO_TCP, TCP_NODELAY, &on, sizeof on);
			while (SSL_do_handshake(ssl) != 1)
				if (!transmit() || !receive()) return;
			transmit();
		});
	}
	void accepted() {
		if (accepting.joinable()) accepting.join();
	}
	~NetWire() {
		shutdown(listening, SHUT_RDWR);
		accepted();
		if (conn >= 0) ::close(conn);
		::close(listening);
		SSL_free(ssl);
	}
	ITcpClient& client() override { return *real; }
	bool blocking() const override { return true; }
	void collectRequests() override {
		accepted();
		char buffer[4096];
		int n;
		while ((n = SSL_read(ssl, buffer, sizeof buffer)) <= 0)
			if (!receive()) return;
		requests.append(buffer, n);
	}
	void acknowledged() {
		for (int left = 1, i = 0; i < 5000; i++) {
			if (ioctl(conn, SIOCOUTQ, &left) || left == 0) break;
			usleep(20);
		}
	}
	void push(std::string_view data) override {
		accepted();
		if (data.size() > teased)
			SSL_write(ssl, data.data() + teased, data.size() - teased);
		teased = 0;
		transmit();
		acknowledged();
	}
	size_t begun() const override { return teased; }
	void tease() override {
		accepted();
		if (teased || closed || queue.empty()) return;
		teased = std::min<size_t>(queue.size(), 10);
		SSL_write(ssl, queue.data(), teased);
		transmit(1);
		acknowledged();
	}
	void shut() override {
		accepted();
		if (conn < 0) return;
		if (!teased && queue.size() % 2) {
			SSL_shutdown(ssl);
			transmit();
		}
		shutdown(conn, SHUT_WR);
		usleep(500);
	}
	void vanish() override {
		accepted();
		if (conn >= 0) ::close(conn);
		conn = -1;
		usleep(500);
	}
};
#else
struct NetWire : Wire {
	int listening, conn = -1;
	std::optional<SyncNetworkClient> real;
	NetWire() {
		listening = socket(AF_INET, SOCK_STREAM, 0);
		sockaddr_in a{};
		a.sin_family = AF_INET;
		a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		socklen_t len = sizeof a;
		if (bind(listening, (sockaddr*)&a, sizeof a) || listen(listening, 4) || getsockname(listening, (sockaddr*)&a, &len))
			_exit(99);
		real.emplace("127.0.0.1", std::to_string(ntohs(a.sin_port)));
	}
	~NetWire() {
		if (conn >= 0) ::close(conn);
		::close(listening);
	}
	ITcpClient& client() override { return *real; }
	bool blocking() const override { return true; }
	void collectRequests() override {
		if (conn < 0) {
			conn = accept(listening, nullptr, nullptr);
			if (conn < 0) _exit(99);
			int on = 1;
			setsockopt(conn, IPPROTO_TCP, TCP_NODELAY, &on, sizeof on);
		}
		char buffer[4096];
		ssize_t n = recv(conn, buffer, sizeof buffer, 0);
		if (n > 0) requests.append(buffer, n);
	}
	void push(std::string_view data) override {
		for (size_t at = 0; at < data.size();) {
			ssize_t n = send(conn, data.data() + at, data.size() - at, MSG_NOSIGNAL);
			if (n <= 0) return;
			at += n;
		}
		// Once it's all acknowledged, it has arrived
		for (int left = 1, i = 0; i < 5000; i++) {
			if (ioctl(conn, SIOCOUTQ, &left) || left == 0) break;
			usleep(20);
		}
	}
	void shut() override {
		if (conn < 0) return;
		shutdown(conn, SHUT_WR);
		usleep(500);
	}
	void vanish() override {
		if (conn >= 0) ::close(conn);
		conn = -1;
		usleep(500);
	}
};

#endif

// Another transport, to see what is offered to the protocol and how the protocol reacts
struct MemWire : Wire, ITcpClient {
	bool prefixes;
	std::string here;
	size_t looked = 0;
	std::map<uint32_t, std::string> stored;
	MemWire(bool prefixes) : prefixes(prefixes) {}
	ITcpClient& client() override { return *this; }
	bool blocking() const override { return false; }
	void push(std::string_view data) override { here += data; }
	void shut() override {}
	void vanish() override {}
	void writeRequest(std::span<char> written) override {
		if (gone) remoteError("Connection closed");
		requests.append(written.data(), written.size());
	}
	template <typename Reader>
	std::tuple<ServerReaction, RequestToken, int64_t> offer(size_t n, Reader&& reader) {
		std::unique_ptr<char[]> copy(new char[n]);
		memcpy(copy.get(), here.data(), n);
		auto r = reader(std::span<char>(copy.get(), n), false);
		Ev("offer").i("n", n).s("r", nameOf(std::get<0>(r))).i("id", std::get<1>(r).id).i("s", std::get<2>(r)).out();
		return r;
	}
	template <typename Reader>
	void search(bool waits, RequestToken token, Reader&& reader) {
		if (auto found = stored.find(token.id); found != stored.end()) {
			std::string data = found->second;
			if (waits) stored.erase(found);
			std::unique_ptr<char[]> copy(new char[data.size()]);
			memcpy(copy.get(), data.data(), data.size());
			auto r = reader(std::span<char>(copy.get(), data.size()), true);
			Ev("stored").s("r", nameOf(std::get<0>(r))).out();
			return;
		}
		size_t from = 0;
		while (true) {
			while (from < here.size()) {
				size_t n = prefixes ? from + 1 : here.size();
				auto [reaction, received, size] = offer(n, reader);
				if (reaction == ServerReaction::DISCONNECT) return;
				if (reaction == ServerReaction::READ_ON) {
					from = n;
					continue;
				}
				if (size <= 0 || size > int64_t(here.size())) return;
				if (reaction == ServerReaction::WRONG_REPLY || !waits)
					stored[received.id] = here.substr(0, size);
				here.erase(0, size);
				from = 0;
				if (reaction == ServerReaction::OK) return;
			}
			if (!waits) return;
			if (!feed || !feed()) {
				if (!closed) Ev("stuck").out();
				remoteError("Connection closed");
				return;
			}
		}
	}
	void getResponse(RequestToken token, Callback<std::tuple<ServerReaction, RequestToken, int64_t>(std::span<char>, bool)> reader) override {
		search(true, token, reader);
	}
	void tryToGetResponse(RequestToken token, Callback<std::tuple<ServerReaction, RequestToken, int64_t>(std::span<char>, bool)> reader) override {
		search(false, token, reader);
	}
};

// Remembers the identifiers
struct Spy : IRpcResponder {
	IRpcResponder& real;
	uint32_t last = 0;
	Spy(IRpcResponder& real) : real(real) {}
	RequestToken send(UserId user, const IRemoteCallable* method, Callback<void(IStructuredOutput&, RequestToken)> request) override {
		RequestToken token = real.send(user, method, request);
		last = token.id;
		return token;
	}
	bool getResponse(RequestToken token, Callback<void(IStructuredInput&)> reader) override { return real.getResponse(token, reader); }
	bool hasResponse(RequestToken token) override { return real.hasResponse(token); }
};

struct Protocol {
	virtual ~Protocol() = default;
	virtual uint32_t request() = 0;
	virtual bool poll(int t) = 0;
	virtual std::pair<bool, std::string> get(int t) = 0;
	// The server's side
	virtual bool wholeRequest(const std::string& data, size_t& size, uint32_t& id) = 0;
	virtual std::string response(uint32_t id, const std::string& kind, const std::string& body, int variant) = 0;
	virtual std::string confusion(int variant) = 0;
};

struct HttpSide : Protocol {
	bool wholeRequest(const std::string& data, size_t& size, uint32_t& id) override {
		size_t end = data.find("\r\n\r\n");
		if (end == std::string::npos) return false;
		size_t at = data.find("Content-Length: "), body = 0;
		if (at < end) body = atoi(data.c_str() + at + 16);
		size = end + 4 + body;
		if (data.size() < size) return false;
		size_t found = data.find("\"id\"", end);
		if (found != std::string::npos && found < size)
			id = atoi(data.c_str() + data.find(':', found) + 1);
		return true;
	}
	std::string http(const char* status, const std::string& body, int variant, bool length = true) {
		std::string r = std::string("HTTP/1.1 ") + status + "\r\n";
		if (variant & 2) r += "Date: Sun, 06 Nov 1994 08:49:37 GMT\r\nX-Note: Content-Length: 5\r\n";
		if (length) r += std::string((variant & 1) ? "content-length: " : "Content-Length: ") + std::to_string(body.size()) + "\r\n";
		if (variant & 4) r += "Content-Type: text/plain\r\nConnection: keep-alive\r\n";
		return r + "\r\n" + body;
	}
	std::string confusion(int variant) override {
		static const char* texts[] = {"Confusion\r\n\r\n", "\r\n\r\n", "HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc"};
		return texts[variant % 3];
	}
	static const char* good(int variant) { return (variant & 8) ? "201 Created" : "200 OK"; }
	static const char* failed(int variant) {
		static const char* texts[] = {"404 Not Found", "500 Internal Server Error", "400 Bad Request", "302 Found"};
		return texts[(variant >> 3) % 4];
	}
};

template <typename Function>
struct Calls {
	Function function;
	using Result = decltype(function.async(std::string()));
	std::optional<Spy> spy;
	std::vector<Result*> futures;
	uint32_t call() {
		function.setResponder(*spy);
		futures.push_back(new Result(function.async("r" + std::to_string(futures.size()))));
		return spy->last;
	}
	bool ready(int t) { return futures[t - 1]->is_ready(); }
	std::pair<bool, std::string> result(int t) {
		try {
			if constexpr(std::is_void_v<decltype(futures[0]->get())>) {
				futures[t - 1]->get();
				return {true, ""};
			} else
				return {true, futures[t - 1]->get()};
		} catch (std::exception&) {
			return {false, ""};
		}
	}
};

struct JsonSide : HttpSide, Calls<RpcStatelessLambda<[] (std::string text = name("text")) { return text; }>> {
	JsonRpcClient<> client;
	JsonSide(ITcpClient& tcp) : client(function, tcp, "host") { spy.emplace(client); }
	uint32_t request() override { return call(); }
	bool poll(int t) override { return ready(t); }
	std::pair<bool, std::string> get(int t) override { return result(t); }
	std::string response(uint32_t id, const std::string& kind, const std::string& body, int variant) override {
		std::string text = "\"";
		for (char c : body) {
			if (c == '"' || c == '\\') text += '\\';
			if (c == '\n') text += "\\n"; else text += c;
		}
		text += '"';
		std::string version = "\"jsonrpc\":\"2.0\"", number = "\"id\":" + std::to_string(id);
		if (kind == "ok") {
			std::string result = "\"result\":" + text;
			return http(good(variant), (variant & 16) ? "{ " + result + " ,\n" + number + ", " + version + " }" : "{" + version + "," + result + "," + number + "}", variant);
		}
		if (kind == "error") {
			std::string error = "\"error\":{\"code\":-32000,\"message\":" + text + "}";
			if (variant & 32) return http(failed(variant), body, variant);
			return http("200 OK", "{" + version + "," + error + "," + number + "}", variant);
		}
		switch (variant % 5) {
		case 0: return http("200 OK", "{" + version + "," + number + "}", 0);
		case 1: return http("200 OK", "{" + version + ",\"result\":[17]," + number + "}", 0);
		case 2: return http("200 OK", "{" + version + ",\"result\":" + text + ",\"id\":" + std::to_string(id + 1000) + "}", 0);
		case 3: return http("200 OK", "{" + version + "," + number + ",\"result\":\"unfinished", 0);
		default: return http("200 OK", "", 0);
		}
	}
};

struct FormSide : HttpSide, Calls<RpcStatelessLambda<[] (std::string text = name("text")) { }>> {
	HttpClient<> client;
	FormSide(ITcpClient& tcp) : client(tcp, "host") { spy.emplace(client); }
	uint32_t request() override { return call(); }
	bool poll(int t) override { return ready(t); }
	std::pair<bool, std::string> get(int t) override { return result(t); }
	std::string response(uint32_t, const std::string& kind, const std::string&, int variant) override {
		if (kind == "ok") return (variant & 16) ? http("200 OK", "accepted=1", variant) : http("204 No Content", "", variant, false);
		return http(failed(variant), "error=" + std::to_string(variant), variant);
	}
};

struct PlainSide : HttpSide {
	HttpClient<> client;
	std::vector<RequestToken> tokens;
	PlainSide(ITcpClient& tcp) : client(tcp, "host") {}
	uint32_t request() override {
		auto body = [] (GeneralisedBuffer& out, RequestToken) { out += std::string_view("some body"); };
		tokens.push_back(tokens.size() % 3 == 1 ? client.post("text/plain", body) : client.get("/page.html"));
		return tokens.back().id;
	}
	bool poll(int t) override { return static_cast<IRpcResponder&>(client).hasResponse(tokens[t - 1]); }
	std::pair<bool, std::string> get(int t) override {
		std::pair<bool, std::string> r;
		int calls = 0;
		auto reader = [&] (std::span<char> message, bool success) {
			r = {success, std::string(message.data(), message.size())};
			calls++;
			return true;
		};
		try {
			client.getResponse(tokens[t - 1], reader);
		} catch (std::exception&) {
			return {false, ""};
		}
		if (calls > 1) Ev("twice").out();
		if (!calls) Ev("silent").out(); // Neither a response nor an error
		return r;
	}
	std::string response(uint32_t, const std::string& kind, const std::string& body, int variant) override {
		if (kind == "ok") return (body.empty() && (variant & 16)) ? http("204 No Content", "", variant, false) : http(good(variant), body, variant);
		return http(failed(variant), body, variant);
	}
};

template <typename Size, template <typename> typename Number>
struct BinarySide : Protocol, Calls<RpcStatelessLambda<[] (std::string text = name("text")) { return text; }>> {
	constexpr static bool big = !std::is_same_v<Number<ExpandingBuffer<>>, LittleEndianNumberFormat<ExpandingBuffer<>>>;
	BinaryProtocolClient<Size, ExpandingBuffer<>, Number<ExpandingBuffer<>>> client;
	BinarySide(ITcpClient& tcp) : client(this->function, tcp) { this->spy.emplace(client); }
	uint32_t request() override { return this->call(); }
	bool poll(int t) override { return this->ready(t); }
	std::pair<bool, std::string> get(int t) override { return this->result(t); }
	static std::string number(uint64_t value, int size) {
		std::string r;
		for (int i = 0; i < size; i++) r += char(value >> 8 * (big ? size - 1 - i : i));
		return r;
	}
	static uint64_t readNumber(std::string_view data) {
		uint64_t r = 0;
		for (size_t i = 0; i < data.size(); i++) r |= uint64_t(uint8_t(data[i])) << 8 * (big ? data.size() - 1 - i : i);
		return r;
	}
	bool wholeRequest(const std::string& data, size_t& size, uint32_t& id) override {
		if (data.size() < 4 + sizeof(Size)) return false;
		size = readNumber(std::string_view(data).substr(4, sizeof(Size)));
		id = readNumber(std::string_view(data).substr(0, 4));
		return data.size() >= size;
	}
	std::string response(uint32_t id, const std::string& kind, const std::string& body, int variant) override {
		std::string content = number(body.size() + (kind == "ok" ? 0 : 1 + variant % 3), sizeof(Size)) + body;
		return number(id, 4) + number(4 + sizeof(Size) + content.size(), sizeof(Size)) + content;
	}
	std::string confusion(int variant) override {
		return number(1, 4) + number(variant % (4 + sizeof(Size)), sizeof(Size));
	}
};
template <typename B> using LittleEndian = LittleEndianNumberFormat<B>;

static void run(const std::vector<vh::Line>& lines) {
	std::unique_ptr<Wire> wire;
	std::unique_ptr<Protocol> protocol;
	struct Message { int t; size_t end; };
	std::vector<uint32_t> ids;              // as the requests say
	std::vector<Message> messages;
	std::map<int, int> responded;           // and which message it is
	std::map<int, bool> collected;
	size_t total = 0, confusedFrom = SIZE_MAX, confusedTo = SIZE_MAX;
	std::string proto;
	for (auto& l : lines) {
		if (l[0] == "proto") {
			proto = l[1];
			if (l[2] == "net") wire.reset(new NetWire);
			else wire.reset(new MemWire(l[2] == "probe"));
			auto& tcp = wire->client();
			if (proto == "json") protocol.reset(new JsonSide(tcp));
			else if (proto == "form") protocol.reset(new FormSide(tcp));
			else if (proto == "plain") protocol.reset(new PlainSide(tcp));
			else if (proto == "bin8") protocol.reset(new BinarySide<uint8_t, LittleEndian>(tcp));
			else if (proto == "bin16") protocol.reset(new BinarySide<uint16_t, LittleEndian>(tcp));
			else if (proto == "bin32") protocol.reset(new BinarySide<uint32_t, LittleEndian>(tcp));
			else if (proto == "be16") protocol.reset(new BinarySide<uint16_t, BigEndian>(tcp));
			else protocol.reset(new BinarySide<uint32_t, BigEndian>(tcp));
			continue;
		}
		auto delivered = [&] { return total - wire->queue.size(); };
		int t = l.size() > 1 && (l[0] == "respond" || l[0] == "poll" || l[0] == "get") ? std::stoi(l[1]) : 0;
		if (t > int(ids.size())) continue;
		if (l[0] == "request") {
			if (wire->closed && ids.empty()) continue;
			uint32_t token = 0;
			try {
				token = protocol->request();
			} catch (std::exception&) {
				Ev("refused").out();
				continue;
			}
			if (wire->gone) usleep(500); // So that the reaction to it arrives
			size_t size = 0;
			uint32_t id = token;
			while (!wire->gone && !protocol->wholeRequest(wire->requests, size, id))
				wire->collectRequests();
			if (!wire->gone) wire->requests.erase(0, size);
			if (!wire->gone && !wire->requests.empty()) Ev("surplus").out();
			ids.push_back(id);
			Ev("request").i("t", ids.size()).i("id", token).out();
		} else if (l[0] == "respond") {
			if (wire->closed || responded.count(t)) continue;
			std::string body = vh::unhex(l[3]);
			if (proto == "form") body = "";
			std::string data = protocol->response(ids[t - 1], l[2], body, std::stoi(l[4]));
			wire->queue += data;
			total += data.size();
			messages.push_back({t, total});
			responded[t] = messages.size() - 1;
			Ev("respond").i("t", t).s("kind", l[2]).bytes("b", body).i("n", data.size()).out();
		} else if (l[0] == "confuse") {
			if (wire->closed || confusedFrom != SIZE_MAX || ids.empty()) continue;
			std::string data = protocol->confusion(std::stoi(l[1]));
			confusedFrom = total;
			wire->queue += data;
			total += data.size();
			confusedTo = total;
			messages.push_back({0, total});
			Ev("confuse").i("n", data.size()).out();
		} else if (l[0] == "tease") {
			wire->tease();
		} else if (l[0] == "arrive") {
			wire->deliver(std::stoi(l[1]));
		} else if (l[0] == "half") {
			size_t from = 0;
			for (auto& m : messages) {
				size_t mid = from + (m.end - from) / (delivered() % 3 + 2);
				if (delivered() < mid) { wire->deliver(mid - delivered()); break; }
				if (delivered() < m.end) { wire->deliver(m.end - delivered()); break; }
				from = m.end;
			}
		} else if (l[0] == "close") {
			if (!ids.empty()) wire->close();
		} else if (l[0] == "gone") {
			if (!ids.empty() && !wire->gone) wire->leave();
		} else if (l[0] == "poll") {
			if (collected[t]) continue;
			wire->feed = nullptr;
			Ev("start").s("op", "poll").i("t", t).out();
			bool yes = protocol->poll(t);
			Ev("polled").b("yes", yes).out();
		} else if (l[0] == "get") {
			if (collected[t]) continue;
			// The rest of the response arrives when it's waited for
			size_t until = SIZE_MAX;
			if (responded.count(t)) until = messages[responded[t]].end;
			if (confusedTo < until) until = confusedTo;
			if (until == SIZE_MAX && !wire->closed) continue; // It would wait forever
			size_t piece = l.size() > 2 ? std::stoi(l[2]) : 100000;
			Ev("start").s("op", "get").i("t", t).out();
			std::pair<bool, std::string> result;
			wire->feed = [&] {
				if (wire->closed || delivered() >= until) return false;
				wire->deliver(std::min(piece, until - delivered()));
				return true;
			};
			if (wire->blocking() && !wire->closed && delivered() < until) {
				std::thread feeder([&] {
					while (wire->feed())
						usleep(50);
				});
				result = protocol->get(t);
				feeder.join();
			} else
				result = protocol->get(t);
			wire->feed = nullptr;
			collected[t] = true;
			Ev("got").b("ok", result.first).bytes("b", result.second).out();
		}
	}
	protocol.release(); // Whoever would destroy the futures would collect the responses
}

int main() {
	return vh::runAll([] (const vh::Case& c) {
		std::vector<vh::Line> part;
		for (auto& l : c.lines) {
			if (l[0] == "new") {
				run(part);
				part = {};
				Ev("fresh").out();
			} else part.push_back(l);
		}
		run(part);
	});
}
