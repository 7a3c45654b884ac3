// Calls of the methods of a generated service by clients over a connection to a server of it.
// Commands: proto <json|form|bin8|bin16|bin32|be16>
//           connect                             another connection, with its own client
//           ask <connection> <method> <seed> <sync|async> <ok|throw>
//           move <connection> <to server|to client> <bytes>
//           fetch <call>     poll <call>
#define DUMP_BRIEFLY
#include <iostream>
#include <random>
#include <deque>
#include "bomba_core.hpp"
#include "bomba_object.hpp"
#include "bomba_json.hpp"
#include "bomba_http.hpp"
#include "bomba_rpc_object.hpp"
#include "bomba_dynamic_object.hpp"
#include "bomba_json_rpc.hpp"
#include "bomba_binary_protocol.hpp"
#include "bomba_tcp_server.hpp"
#include "dump.hpp"
#include "vh.hpp"
using namespace Bomba;
#include "big_endian.hpp"
using vh::Ev;
using Rng = std::mt19937_64;

namespace made {
static int budget = 0;                // so that values don't grow too much
static bool tiny = false;
static int below(Rng& rng, int n) { return rng() % n; }
inline void fill(bool& v, Rng& rng, int) { v = rng() % 2; }
template <std::integral T> inline void fill(T& v, Rng& rng, int) {
	switch (rng() % 6) {
	case 0: v = std::numeric_limits<T>::max(); break;
	case 1: v = std::numeric_limits<T>::min(); break;
	case 2: v = 0; break;
	case 3: v = T(rng()); break;
	default: v = T(int(rng() % 300) - (std::is_signed_v<T> ? 150 : 0));
	}
}
template <std::floating_point T> inline void fill(T& v, Rng& rng, int) {
	switch (rng() % 6) {
	case 0: v = 0; break;
	case 1: v = T(int(rng() % 2000) - 1000) / 8; break;
	case 2: v = (rng() % 2) ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest(); break;
	case 3: v = std::numeric_limits<T>::min() * (1 + rng() % 9); break;
	case 4: v = std::ldexp(T(int64_t(rng())), int(rng() % 100) - 80); break;
	default: v = T(int(rng() % 2000)) / 10;
	}
}
inline void fill(std::string& v, Rng& rng, int) {
	static const char* bits[] = {"a", "bc", " ", "\"", "\\", "\n", "&", "=", "+", "%41", "\xc5\xbe", "\xf0\x9f\x98\x80", "\x01", "{}", "null", "/", "0", "?", "\t", "\xe2\x82\xac"};
	int n = below(rng, 4) ? below(rng, 5) : below(rng, tiny ? 10 : 60);
	if (!tiny && rng() % 60 == 0) n = 900 + below(rng, 900);
	if (budget < 0) n = 0;
	v.clear();
	for (int i = 0; i < n; i++) {
		if (rng() % 30 == 0) v += '\0';
		else v += bits[rng() % 20];
	}
	budget -= n;
}
template <typename T> inline void fill(std::vector<T>& v, Rng& rng, int depth);
template <typename T, size_t n> inline void fill(std::array<T, n>& v, Rng& rng, int depth);
template <typename T> inline void fill(std::map<std::string, T>& v, Rng& rng, int depth);
template <typename T> inline void fill(Optional<T>& v, Rng& rng, int depth);
template <typename T> inline void fill(std::optional<T>& v, Rng& rng, int depth);
inline int some(Rng& rng, int depth) { return budget < 0 || depth > 4 ? 0 : below(rng, depth > 2 ? 3 : rng() % 9 ? 4 : tiny ? 5 : 20); }
}
#ifdef PROGRAM
#include PROGRAM
#endif
namespace made {
template <typename T> inline void fill(std::vector<T>& v, Rng& rng, int depth) {
	v.clear();
	for (int i = some(rng, depth); i > 0; i--) {
		v.emplace_back();
		budget -= 2;
		fill(v.back(), rng, depth + 1);
	}
}
template <typename T, size_t n> inline void fill(std::array<T, n>& v, Rng& rng, int depth) {
	for (auto& it : v) fill(it, rng, depth + 1);
}
template <typename T> inline void fill(std::map<std::string, T>& v, Rng& rng, int depth) {
	v.clear();
	for (int i = some(rng, depth); i > 0; i--) {
		std::string key;
		fill(key, rng, depth + 1);
		if (key.size() > 100) key.resize(3);
		budget -= 2;
		fill(v[key], rng, depth + 1);
	}
}
template <typename T> inline void fill(Optional<T>& v, Rng& rng, int depth) {
	auto& inside = static_cast<std::optional<T>&>(v);
	inside.reset();
	if (rng() % 3) fill(inside.emplace(), rng, depth + 1);
}
template <typename T> inline void fill(std::optional<T>& v, Rng& rng, int depth) {
	v.reset();
	if (rng() % 3) fill(v.emplace(), rng, depth + 1);
}
}

// How much the value is nested
static int depth(const std::string& text) {
	int now = 0, most = 0;
	for (char c : text) {
		if (c == '{') most = std::max(most, ++now);
		if (c == '}') now--;
	}
	return most;
}
constexpr int MOST_DEPTH = 14;

// The server's side of calls
static std::deque<std::pair<bool, uint64_t>>* plan = nullptr;    // for the connection that is being served: to throw?, seed
struct Planned {};
template <typename R> static R value(uint64_t seed, size_t most) {
	for (int i = 0;; i++) {
		Rng rng(seed + 1000003 * i);
		made::budget = made::tiny ? 20 : 300;
		R r{};
		made::fill(r, rng, 0);
		if (i > 30 || (depth(dump(r)) <= MOST_DEPTH && (!made::tiny || dump(r).size() < most))) return r;
	}
}
template <typename R, typename... A> static R run(const char* method, int self, std::initializer_list<const char*> names, const A&... args) {
	std::pair<bool, uint64_t> how = {false, 0};
	if (plan && !plan->empty()) {
		how = plan->front();
		plan->pop_front();
	}
	Ev called("call");
	called.s("m", method).i("s", self).raw("a", members(names, args...));
	if constexpr(!std::is_void_v<R>) {
		R r = value<R>(how.second, 220);
		std::string text = dump(r);
		if ((made::tiny && text.size() >= 220) || depth(text) > MOST_DEPTH) how.first = true; // Would not fit
		if (!how.first) {
			called.raw("r", text).out();
			return r;
		}
	} else if (!how.first) {
		called.raw("r", "{\"t\":\"void\"}").out();
		return;
	}
	called.raw("r", "{\"t\":\"throw\"}").out();
	throw std::runtime_error("planned");
}

// A connection in memory
struct Connection : ITcpClient {
	std::string toServer, toClient, here;
	std::unordered_map<uint32_t, std::string> stored;
	std::function<std::pair<ServerReaction, int>(std::span<char>, Callback<void(std::span<const char>)>)> respond;
	std::deque<std::pair<bool, uint64_t>> plans;
	TcpServerBuffer buffer;
	int number;
	bool alive = true;

	void writeRequest(std::span<char> written) override { toServer.append(written.data(), written.size()); }
	void serve(size_t most) {
		struct Glue : ITcpServerSession {
			Connection& c;
			Glue(Connection& c) : c(c) {}
			std::pair<ServerReaction, int> feedToResponder(std::span<char> data) override {
				std::unique_ptr<char[]> copy(new char[data.size()]);
				memcpy(copy.get(), data.data(), data.size());
				auto send = [&] (std::span<const char> out) { c.toClient.append(out.data(), out.size()); };
				auto r = c.respond(std::span<char>(copy.get(), data.size()), send);
				memcpy(data.data(), copy.get(), data.size());
				return r;
			}
			void notifyMessageWasParsed() override {}
		} glue(*this);
		plan = &plans;
		Ev("serve").i("c", number).out();
		size_t n = std::min(most, toServer.size()), at = 0;
		std::string data = toServer.substr(0, n);
		toServer.erase(0, n);
		while (at < n && alive) {
			auto space = buffer.space();
			size_t piece = std::min(space.size(), n - at);
			if (!piece) { Ev("nospace").out(); alive = false; break; }
			memcpy(space.data(), data.data() + at, piece);
			alive = buffer.receive(glue, {}, piece);
			at += piece;
		}
		plan = nullptr;
		if (!alive) {
			toServer.clear();
			Ev("closed").i("c", number).out();
		}
	}
	void arrive(size_t most) {
		here += toClient.substr(0, most);
		toClient.erase(0, most);
	}
	template <typename Reader>
	void search(bool waits, RequestToken token, Reader&& reader) {
		if (auto found = stored.find(token.id); found != stored.end()) {
			std::string data = found->second;
			if (waits) stored.erase(found);
			reader(std::span<char>(data.data(), data.size()), true);
			return;
		}
		while (true) {
			while (!here.empty()) {
				auto [reaction, received, size] = reader(std::span<char>(here.data(), here.size()), false);
				if (reaction == ServerReaction::DISCONNECT) return;
				if (reaction == ServerReaction::READ_ON) break;
				if (size <= 0 || size > int64_t(here.size())) { Ev("badsize").i("n", size).out(); return; }
				if (reaction == ServerReaction::WRONG_REPLY || !waits)
					stored[received.id] = here.substr(0, size);
				here.erase(0, size);
				if (reaction == ServerReaction::OK) return;
			}
			if (!waits) return;
			if (!toClient.empty()) arrive(pieces(random) + 1);
			else if (!toServer.empty() && alive) serve(pieces(random) + 1);
			else {
				if (alive) Ev("stuck").out();
				remoteError("Connection closed");
				return;
			}
		}
	}
	Rng random{7};
	std::uniform_int_distribution<size_t> pieces{0, 100000};
	void getResponse(RequestToken token, Callback<std::tuple<ServerReaction, RequestToken, int64_t>(std::span<char>, bool)> reader) override {
		search(true, token, reader);
	}
	void tryToGetResponse(RequestToken token, Callback<std::tuple<ServerReaction, RequestToken, int64_t>(std::span<char>, bool)> reader) override {
		search(false, token, reader);
	}
};

struct Pending {
	std::function<bool()> ready;
	std::function<void()> fetch;      // emits "answer"
	bool done = false;
};
static std::vector<Pending> calls;
struct Ask {
	Connection& connection;
	uint64_t seed;
	bool async, throws, formable;
	std::string proto;
};
template <typename R> static void answered(int t, R&& get) {
	std::string result;
	try {
		if constexpr(std::is_void_v<decltype(get())>) {
			get();
			result = "{\"t\":\"void\"}";
		} else
			result = dump(get());
	} catch (std::exception& e) {
		Ev("answer").i("t", t).b("ok", false).raw("r", "{\"t\":\"none\"}").s("what", e.what()).out();
		return;
	}
	Ev("answer").i("t", t).b("ok", true).raw("r", result).out();
}
template <typename Method, typename... A>
static void askWith(Ask& how, Method& method, const char* name, int self, std::initializer_list<const char*> names, A... args) {
	std::string values = members(names, args...);
	bool may = how.proto == "form" ? !how.formable : made::tiny ? values.size() > 200 : depth(values) > MOST_DEPTH;
	int t = calls.size() + 1;
	Ev("ask").i("c", how.connection.number).i("t", t).s("m", name).i("s", self).raw("a", values).b("may", may).out();
	how.connection.plans.emplace_back(how.throws, how.seed * 31 + 7);
	size_t plansBefore = how.connection.plans.size();
	calls.emplace_back();
	std::string written = how.connection.toServer;
	if constexpr(requires { method.async(args...); }) {
		if (how.async) {
			try {
				auto future = new auto(method.async(args...));
				calls.back().ready = [=] { return future->is_ready(); };
				calls.back().fetch = [=] { answered(t, [&] { return future->get(); }); };
			} catch (std::exception& e) {
				Ev("answer").i("t", t).b("ok", false).raw("r", "{\"t\":\"none\"}").s("what", e.what()).out();
				calls.back().done = true;
				how.connection.plans.pop_back();
			}
			return;
		}
	}
	calls.back().done = true;
	answered(t, [&] { return method(args...); });
	if (how.connection.plans.size() == plansBefore) how.connection.plans.pop_back(); // Not sent at all
}

static bool simpleNumbers(Ask& how) { return how.proto == "form"; }
#ifdef PROGRAM
#define CALLS
#include PROGRAM
#endif

template <typename B> using LittleEndian = LittleEndianNumberFormat<B>;
template <typename Size, template <typename> typename Number> struct Binary {
	BinaryProtocolServer<Size, ExpandingBuffer<>, Number<ExpandingBuffer<>>, 20> server;
	Binary(IRemoteCallable& api) : server(api) {}
	void connect(Connection& c, IRemoteCallable& clientApi) {
		auto session = new auto(server.getSession());
		c.respond = [=] (std::span<char> data, Callback<void(std::span<const char>)> send) { return session->respond(data, send); };
		new BinaryProtocolClient<Size, ExpandingBuffer<>, Number<ExpandingBuffer<>>, 20>(clientApi, c);
	}
};

static void runCase(const vh::Case& c) {
	Api& served = *new Api(true);
	std::string proto;
	std::vector<std::unique_ptr<Connection>> connections;
	std::vector<Api*> clients;
	std::function<void(Connection&, Api&)> connect;
	calls.clear();
	made::tiny = false;
	for (auto& l : c.lines) {
		if (l[0] == "proto") {
			proto = l[1];
			made::tiny = proto == "bin8";
			Ev("proto").s("p", proto).out();
			if (proto == "json") {
				auto get = new DummyGetResponder;
				auto server = new JsonRpcServer<>(served.callable(), *get);
				connect = [=] (Connection& c, Api& api) {
					auto session = new auto(server->getSession());
					c.respond = [=] (std::span<char> data, Callback<void(std::span<const char>)> send) { return session->respond(data, send); };
					new JsonRpcClient<>(api.callable(), c, "host");
				};
			} else if (proto == "form") {
				auto get = new DummyGetResponder;
				auto post = new HtmlPostResponder<>(served.callable());
				auto server = new HttpServer<>(*get, *post);
				connect = [=] (Connection& c, Api& api) {
					auto session = new auto(server->getSession());
					c.respond = [=] (std::span<char> data, Callback<void(std::span<const char>)> send) { return session->respond(data, send); };
					api.callable().setResponder(*new HttpClient<>(c, "host"));
				};
			} else {
				auto binary = [&] (auto server) {
					connect = [=] (Connection& c, Api& api) { server->connect(c, api.callable()); };
				};
				if (proto == "bin8") binary(new Binary<uint8_t, LittleEndian>(served.callable()));
				else if (proto == "bin16") binary(new Binary<uint16_t, LittleEndian>(served.callable()));
				else if (proto == "bin32") binary(new Binary<uint32_t, LittleEndian>(served.callable()));
				else binary(new Binary<uint16_t, BigEndian>(served.callable()));
			}
		} else if (l[0] == "connect") {
			connections.emplace_back(new Connection);
			connections.back()->number = connections.size();
			connections.back()->pieces = std::uniform_int_distribution<size_t>(0, std::stoi(l[1]));
			clients.push_back(new Api(false));
			connect(*connections.back(), *clients.back());
			Ev("connect").i("c", connections.size()).out();
		} else if (l[0] == "ask") {
			size_t n = std::stoi(l[1]) - 1;
			if (n >= connections.size()) continue;
			Ask how{*connections[n], std::stoull(l[3]), l[4] == "async", l[5] == "throw", false, proto};
			Rng rng(how.seed);
			clients[n]->ask(std::stoi(l[2]), how, rng);
		} else if (l[0] == "move") {
			size_t n = std::stoi(l[1]) - 1;
			if (n >= connections.size()) continue;
			auto& it = *connections[n];
			if (l[2] == "server") {
				if (it.alive && !it.toServer.empty()) it.serve(std::stoi(l[3]));
			} else
				it.arrive(std::stoi(l[3]));
		} else if (l[0] == "fetch" || l[0] == "poll") {
			size_t n = std::stoi(l[1]) - 1;
			if (n >= calls.size() || calls[n].done) continue;
			if (l[0] == "poll") {
				Ev("ready").i("t", n + 1).b("yes", calls[n].ready()).out();
				continue;
			}
			calls[n].done = true;
			calls[n].fetch();
		}
	}
	for (auto& it : calls) {
		if (it.done) continue;
		it.done = true;
		it.fetch();
	}
	for (auto& it : connections)
		if (it->alive && !it->toServer.empty()) it->serve(1000000000);
	Ev("done").out();
}
int main() { return vh::runAll(runCase); }
