// A TCP server and clients connected to it through the loopback network.
// Commands: server <thread|step>          it serves in its own thread or when told to
//           join <c>                      a client connects
//           starve <c>                    ... while the server can't accept it for a while
//           ask <c> <kind> <reply size> <pieces> <padding>   prepare a request; ok | bad (the server disconnects) | fail (its responder throws)
//           push <c> <bytes>              send some of what is prepared
//           step                          let the server do what it can
//           read <c>                      read what has come
//           await <c>                     send the rest, wait for all replies
//           shut <c>                      send the rest, close the sending direction and read until the end
//           leave <c> <close|reset>       disconnect without reading anything
//           stats                         ask how fast it responds
#include <iostream>
#include <random>
#include <optional>
#include <map>
#include <sys/socket.h>
#include <sys/resource.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include "bomba_core.hpp"
#include "bomba_tcp_server.hpp"
#include "vh.hpp"
using namespace Bomba;
using vh::Ev;

static uint32_t number(const char* p) { uint32_t r; memcpy(&r, p, 4); return r; }
static std::string text(uint32_t n) { return std::string((const char*)&n, 4); }
static char filler(uint32_t owner, uint32_t request, uint32_t at) { return char((owner * 31 + request * 7 + at * 13 + at / 251) % 256); }

// Request: size, connection, number, kind, size of reply, pieces, padding; reply: size, connection, number, filler
constexpr uint32_t REQUEST = 24, REPLY = 12;
struct Responder {
	struct Session : ITcpResponder {
		uint32_t expected = 1;
		std::pair<ServerReaction, int64_t> respond(std::span<char> input, Callback<void(std::span<const char>)> writer) override {
			if (input.size() < REQUEST || input.size() < number(input.data())) return {ServerReaction::READ_ON, 0};
			uint32_t size = number(input.data()), owner = number(input.data() + 4), request = number(input.data() + 8),
					kind = number(input.data() + 12), answer = number(input.data() + 16), pieces = number(input.data() + 20);
			for (uint32_t i = REQUEST; i < size; i++)
				if (input[i] != filler(owner, request, i)) request = 0; // Somebody else's data
			if (request != expected++) owner = 0;
			if (kind == 1) return {ServerReaction::DISCONNECT, 0};
			if (kind == 2) throw std::runtime_error("planned");
			std::string out = text(answer) + text(owner) + text(request);
			size_t start = out.size();
			out.resize(start + answer);
			for (uint32_t i = 0; i < answer; i++) out[start + i] = filler(owner, request, i);
			size_t piece = out.size() / pieces + 1;
			for (size_t at = 0; at < out.size(); at += piece)
				writer(std::span<const char>(out.data() + at, std::min(piece, out.size() - at)));
			return {ServerReaction::OK, size};
		}
	};
	Session getSession() { return {}; }
};

using Server = TcpServer<Responder>;
using Background = BackgroundTcpServer<Responder>;
struct Client {
	int fd = -1, id = 0;
	std::string out, in;
	std::vector<std::pair<size_t, bool>> ends;  // of requests in all that is sent, and if they have replies
	size_t asked = 0, sent = 0, replies = 0;
	bool live = false, ended = false, shut = false;
	size_t due() {
		size_t n = 0;
		for (auto& [end, replied] : ends) {
			if (end > sent || !replied) break;
			n++;
		}
		return n;
	}
	bool expelled() {
		for (auto& [end, replied] : ends)
			if (end <= sent && !replied) return true;
		return false;
	}
};
struct World {
	Responder responder;
	std::unique_ptr<Server> stepped;
	std::unique_ptr<Background> background;
	int port = 0;
	std::map<int, Client> clients;
};
static std::unique_ptr<World> w;

static void open(Client& c) {
	c.fd = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0);
	int on = 1;
	setsockopt(c.fd, IPPROTO_TCP, TCP_NODELAY, &on, sizeof on);
	c.live = true;
}
static void connect(Client& c) {
	sockaddr_in a{};
	a.sin_family = AF_INET;
	a.sin_port = htons(w->port);
	a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	if (::connect(c.fd, (sockaddr*)&a, sizeof a) == 0) return;
	pollfd p{c.fd, POLLOUT, 0};
	poll(&p, 1, 10000);
	int error = 0;
	socklen_t size = sizeof error;
	getsockopt(c.fd, SOL_SOCKET, SO_ERROR, &error, &size);
	if (error) Ev("noconnection").i("c", c.id).out();
}
static void step() {
	if (!w->stepped) return;
	for (int i = 0; i < 3; i++)
		w->stepped->runARound();
}
static bool receive(Client& c) {
	static char data[1 << 16];
	bool any = false;
	while (true) {
		ssize_t n = recv(c.fd, data, sizeof data, MSG_DONTWAIT);
		if (n < 0) {
			if (errno == EAGAIN || errno == EWOULDBLOCK) return any;
			Ev("lost").i("c", c.id).s("what", strerror(errno)).out();
			c.ended = true;
			return true;
		}
		if (n == 0) {
			Ev("end").i("c", c.id).i("rest", c.in.size()).out();
			c.ended = true;
			return true;
		}
		any = true;
		c.in.append(data, n);
		while (c.in.size() >= REPLY && c.in.size() - REPLY >= number(c.in.data())) {
			uint32_t size = number(c.in.data()), owner = number(c.in.data() + 4), request = number(c.in.data() + 8);
			bool ok = true;
			for (uint32_t i = 0; i < size; i++)
				if (c.in[REPLY + i] != filler(owner, request, i)) ok = false;
			Ev("reply").i("c", c.id).i("owner", owner).i("q", request).i("n", size).b("ok", ok).out();
			c.in.erase(0, REPLY + size);
			c.replies++;
		}
		if (c.in.size() > 100000000) { Ev("flood").out(); return true; }
	}
}
// Everybody reads, until it's enough or nothing comes for too long
static bool serveUntil(std::function<bool()> enough, size_t toSend = 0, Client* sender = nullptr) {
	auto last = std::chrono::steady_clock::now();
	while (!enough()) {
		bool any = false;
		std::vector<pollfd> polled;
		for (auto& [id, c] : w->clients)
			if (c.live && !c.ended) {
				any |= receive(c);
				if (!c.ended) polled.push_back({c.fd, POLLIN, 0});
			}
		if (sender && toSend > 0 && !sender->out.empty() && !sender->ended) {
			ssize_t n = send(sender->fd, sender->out.data(), std::min(toSend, sender->out.size()), MSG_NOSIGNAL | MSG_DONTWAIT);
			if (n > 0) {
				sender->sent += n;
				sender->out.erase(0, n);
				toSend -= n;
				any = true;
				size_t whole = 0;
				for (auto& it : sender->ends) whole += it.first <= sender->sent;
				Ev("sent").i("c", sender->id).i("k", whole).out();
			} else if (errno != EAGAIN && errno != EWOULDBLOCK)
				sender->out.clear();
			if (toSend > 0 && !sender->out.empty())
				for (auto& it : polled) if (it.fd == sender->fd) it.events |= POLLOUT;
		}
		step();
		if (any) {
			last = std::chrono::steady_clock::now();
			continue;
		}
		if (enough()) break;
		if (std::chrono::steady_clock::now() - last > std::chrono::seconds(8)) return false;
		poll(polled.data(), polled.size(), w->stepped ? 1 : 20);
	}
	return true;
}
// The case cannot continue, waiting for everything else would take too long
static void silent(int id) {
	Ev("silent").i("c", id).out();
	fflush(nullptr);
	_exit(0);
}
static void pushAll(Client& c, size_t most) {
	size_t left = c.out.size() > most ? c.out.size() - most : 0;
	if (!serveUntil([&] { return c.out.size() <= left || c.ended; }, most, &c)) silent(c.id);
}
static void finish(Client& c) {
	if (!c.live) return;
	pushAll(c, c.out.size());
	if (!c.ended) {
		c.shut = true;
		Ev("shut").i("c", c.id).out();
		shutdown(c.fd, SHUT_WR);
	}
	if (!serveUntil([&] { return c.ended; })) silent(c.id);
	close(c.fd);
	c.live = false;
}

static void runCase(const vh::Case& cs) {
	w = std::make_unique<World>();
	std::mt19937 ports(getpid() * 131 + std::hash<std::string>()(cs.id));
	for (auto& l : cs.lines) {
		if (l[0] == "server") {
			for (int i = 0; i < 200 && !w->stepped && !w->background; i++) {
				w->port = 20000 + ports() % 12000;
				try {
					if (l[1] == "step") w->stepped = std::make_unique<Server>(w->responder, w->port);
					else w->background = std::make_unique<Background>(w->responder, w->port);
				} catch (std::system_error&) {}
			}
			continue;
		}
		if (l[0] == "step") { step(); continue; }
		if (l[0] == "stats") {
			auto t = w->stepped ? w->stepped->averageResponseTime() : w->background->averageResponseTime();
			Ev("stats").i("n", std::min<int64_t>(t.count(), 1000000000)).out();
			continue;
		}
		int id = std::stoi(l[1]);
		Client& c = w->clients[id];
		if (l[0] == "join" || l[0] == "starve") {
			c.id = id;
			Ev("join").i("c", id).out();
			open(c);
			if (l[0] == "starve") {
				rlimit before{}, none{};
				getrlimit(RLIMIT_NOFILE, &before);
				none = before;
				int firstFree = dup(0);
				close(firstFree);
				none.rlim_cur = firstFree;
				setrlimit(RLIMIT_NOFILE, &none);
				connect(c);
				if (w->stepped) step();
				else usleep(20000);
				setrlimit(RLIMIT_NOFILE, &before);
			} else
				connect(c);
			continue;
		}
		if (!c.live) continue;
		if (l[0] == "ask") {
			if (c.shut || c.ended) continue;
			uint32_t pad = std::stoi(l[5]), size = std::stoi(l[3]), q = ++c.asked;
			std::string request = text(REQUEST + pad) + text(id) + text(q) + text(l[2] == "bad" ? 1 : l[2] == "fail" ? 2 : 0) + text(size) + text(std::stoi(l[4]));
			for (uint32_t i = REQUEST; i < REQUEST + pad; i++) request += filler(id, q, i);
			c.out += request;
			c.ends.emplace_back(c.sent + c.out.size(), l[2] == "ok");
			Ev("asked").i("c", id).s("kind", l[2]).i("n", size).out();
		} else if (l[0] == "push")
			pushAll(c, std::stoi(l[2]));
		else if (l[0] == "send") { // Without reading anything
			size_t n = std::min<size_t>(c.out.size(), std::stoi(l[2]));
			ssize_t done = n ? send(c.fd, c.out.data(), n, MSG_NOSIGNAL | MSG_DONTWAIT) : 0;
			if (done > 0) {
				c.sent += done;
				c.out.erase(0, done);
				size_t whole = 0;
				for (auto& it : c.ends) whole += it.first <= c.sent;
				Ev("sent").i("c", id).i("k", whole).out();
			}
		} else if (l[0] == "read") {
			if (!c.ended) receive(c);
		} else if (l[0] == "await") {
			pushAll(c, c.out.size());
			if (!serveUntil([&] { return c.ended || (!c.expelled() && c.replies >= c.due()); })) silent(id);
			if (!c.ended) Ev("awaited").i("c", id).out();
		} else if (l[0] == "shut")
			finish(c);
		else if (l[0] == "leave") {
			Ev("leave").i("c", id).out();
			if (l[2] == "reset") {
				linger now{1, 0};
				setsockopt(c.fd, SOL_SOCKET, SO_LINGER, &now, sizeof now);
			}
			close(c.fd);
			c.live = false;
			if (l.size() > 3) usleep(std::stoi(l[3]));
		}
	}
	for (auto& [id, c] : w->clients) finish(c);
	Ev("done").out();
	w.reset();
}
int main() { return vh::runAll(runCase); }
