// Drives TcpServerBuffer: the receive side of a server session, between the socket and the protocol handler.
// Commands of a case:
//   stream <seed>                the byte stream the peer sends
//   react <kind> <arg>           next reaction of the handler; kinds: ok/okall/okbut/on/wrong/stop
//   recv <n>|full|err|eof        one completed read of n bytes (at most what the buffer offers)
#include <iostream>
#include <mutex>
#include <thread>
#include "bomba_tcp_server.hpp"
#include "vh.hpp"
#include <deque>

static unsigned char streamByte(uint32_t seed, uint32_t pos) {
	uint32_t x = seed * 2654435761u + pos * 40503u + (pos >> 7) * 97u;
	x ^= x >> 13; x *= 0x5bd1e995; x ^= x >> 15;
	return x & 0xff;
}

// Lossless description of the offered bytes as runs [stream position, length]; a byte that matches nothing is [-1-value, 1]
static std::string runs(std::span<char> data, const std::string& stream, size_t guess) {
	std::vector<std::pair<int64_t, int64_t>> res;
	size_t at = 0, from = guess;
	while (at < data.size()) {
		size_t n = 0;
		while (at + n < data.size() && from + n < stream.size() && data[at + n] == stream[from + n]) n++;
		if (n == 0) {
			std::string_view rest(data.data() + at, std::min<size_t>(data.size() - at, 24));
			size_t found = stream.find(rest);
			if (found != std::string::npos && found != from) { from = found; continue; }
			res.push_back({-1 - (unsigned char)data[at], 1});
			at++; from++;
			if (res.size() > 20) { res.push_back({-1000, int64_t(data.size() - at)}); break; }
			continue;
		}
		res.push_back({int64_t(from), int64_t(n)});
		at += n; from += n;
	}
	std::string text = "[";
	for (size_t i = 0; i < res.size(); i++)
		text += (i ? ",[" : "[") + std::to_string(res[i].first) + "," + std::to_string(res[i].second) + "]";
	return text + "]";
}

static void runCase(const vh::Case& c) {
	std::string stream;
	size_t received = 0, consumed = 0;
	std::deque<std::pair<std::string, int>> reactions;
	Bomba::TcpServerBuffer buffer;

	struct Session : Bomba::ITcpServerSession {
		std::string& stream;
		size_t& consumed;
		std::deque<std::pair<std::string, int>>& reactions;
		Session(std::string& s, size_t& c, std::deque<std::pair<std::string, int>>& r) : stream(s), consumed(c), reactions(r) {}
		std::pair<Bomba::ServerReaction, int> feedToResponder(std::span<char> data) override {
			std::pair<std::string, int> r = {"on", 0};
			if (!reactions.empty()) { r = reactions.front(); reactions.pop_front(); }
			int n = 0;
			int size = data.size();
			auto kind = Bomba::ServerReaction::READ_ON;
			std::string name = "on";
			if (r.first == "ok") { n = r.second; kind = Bomba::ServerReaction::OK; }
			else if (r.first == "okall") { n = size; kind = Bomba::ServerReaction::OK; }
			else if (r.first == "okbut") { n = size - r.second; kind = Bomba::ServerReaction::OK; }
			else if (r.first == "okpart") { n = int64_t(size) * r.second / 100; kind = Bomba::ServerReaction::OK; }
			else if (r.first == "wrong") { kind = Bomba::ServerReaction::WRONG_REPLY; name = "wrong"; }
			else if (r.first == "stop") { kind = Bomba::ServerReaction::DISCONNECT; name = "stop"; }
			if (kind == Bomba::ServerReaction::OK) {
				name = "ok";
				if (n < 1 || n > size) { n = 0; kind = Bomba::ServerReaction::READ_ON; name = "on"; } // Handlers never do that
			}
			std::string seen = runs(data, stream, consumed);
			vh::Ev("offer").i("len", size).raw("runs", seen).s("r", name).i("n", n).out();
			// What a handler reports along with READ_ON is a hint, it may be anything
			if (kind == Bomba::ServerReaction::OK) { consumed += n; return {kind, n}; }
			return {kind, r.second};
		}
		void notifyMessageWasParsed() override { vh::Ev("parsed").out(); }
	} session(stream, consumed, reactions);

	for (auto& line : c.lines) {
		if (line[0] == "stream") {
			uint32_t seed = std::stoul(line[1]);
			size_t size = std::stoul(line[2]);
			for (size_t i = 0; i < size; i++) stream += streamByte(seed, i);
		} else if (line[0] == "react") {
			reactions.push_back({line[1], line.size() > 2 ? std::stoi(line[2]) : 0});
		} else if (line[0] == "recv") {
			std::span<char> space = buffer.space();
			int n = 0;
			std::error_code error = {};
			if (line[1] == "full") n = space.size();
			else if (line[1] == "eof") n = 0;
			else if (line[1] == "err") { n = 0; error = std::make_error_code(std::errc::connection_reset); }
			else n = std::min<int>(std::stoi(line[1]), space.size());
			n = std::min<int>(n, stream.size() - received);
			if (n == 0 && line[1] != "eof" && line[1] != "err" && space.size() > 0) break;
			if (n) memcpy(space.data(), stream.data() + received, n);
			received += n;
			vh::Ev("recv").i("space", space.size()).i("n", n).b("err", bool(error)).out();
			bool more = buffer.receive(session, error, n);
			vh::Ev("ret").b("more", more).out();
			if (!more) break;
		}
	}
	vh::Ev("done").out();
}

int main() { return vh::runAll(runCase); }
