// Drives the file servers on a directory of its own (made in $FS_BASE), directly and through HTTP.
// Commands: file <path> <contents>   delete <path>   dir <path>      (hex; under the root)
//           outside <path> <contents>                                (hex; next to the root)
//           server dynamic|caching       reload      reset
//           add <name> <known 0|1> <chunk>...      page; the dynamic server's generator appends the number of its run to the first chunk
//           get|http <path>              absolute <prefix> <path outside>  <suffix>    cut <path> <size>
//           race <readers> <versions> <page|file>
#include <iostream>
#include <mutex>
#include <thread>
#include <atomic>
#include <fcntl.h>
#include <sys/stat.h>
#include "bomba_core.hpp"
#include "bomba_http.hpp"
#include "bomba_download_server.hpp"
#include "vh.hpp"
namespace fs = std::filesystem;
using namespace Bomba;

struct Writer : IWriteStarter {
	std::string kind = "refused", type, out;
	int64_t announced = -1;
	int started = 0;
	std::function<void()> before;
	void begin(std::string_view t) { type = t; kind = started++ ? "twice" : "file"; if (before) before(); }
	void writeUnknownSize(std::string_view t, Callback<void(GeneralisedBuffer&)> filler) override {
		begin(t);
		ExpandingBuffer<> buffer;
		filler(buffer);
		std::string_view v = buffer;
		out += v;
	}
	void writeKnownSize(std::string_view t, int64_t size, Callback<void(GeneralisedBuffer&)> filler) override {
		begin(t);
		announced = size;
		auto append = [this] (std::span<const char> part) { out.append(part.data(), part.size()); };
		NonOwningStreamingBuffer<1024> buffer{Callback<void(std::span<const char>)>(append)};
		filler(buffer);
	}
};

static Writer ask(IHttpGetResponder& server, std::string_view path, std::function<void()> before = {}) {
	Writer w;
	w.before = std::move(before);
	std::unique_ptr<char[]> copy(new char[path.size()]);
	memcpy(copy.get(), path.data(), path.size());
	try {
		bool got = server.get({copy.get(), path.size()}, w);
		if (!got && w.started) w.kind = "refusedlate";
		if (got && !w.started) w.kind = "nothing";
	} catch (...) {
		w.kind = "failed";
	}
	return w;
}

static void report(const char* what, const std::string& path, const Writer& w, std::string_view was = {}) {
	auto ev = vh::Ev(what);
	ev.bytes("path", path).s("k", w.kind).bytes("type", w.kind == "file" ? w.type : "").i("announced", w.announced).bytes("b", w.out);
	if (what[0] == 'c') ev.bytes("was", was);
	ev.out();
}

static std::string overHttp(IHttpGetResponder& get, const std::string& path) {
	struct Post : IHttpPostResponder {
		bool post(std::string_view, std::string_view, std::span<char>, IWriteStarter&) override { return false; }
	} post;
	HttpServer<> server(get, post);
	auto session = server.getSession();
	std::string request = "GET " + path + " HTTP/1.1\r\n\r\n", out;
	session.respond(std::span<char>(request.data(), request.size()), [&] (std::span<const char> part) { out.append(part.data(), part.size()); });
	return out;
}

static std::string slurp(const fs::path& p) {
	std::ifstream f(p, std::ios::binary);
	return {std::istreambuf_iterator<char>(f), {}};
}

// Versions of a page (or file) are put in place one by one, while it's being requested
static void race(CachingFileServer& server, const fs::path& root, int readers, int versions, bool page) {
	std::atomic<bool> over = false;
	std::vector<std::thread> threads;
	auto body = [] (int v) { return std::to_string(v) + std::string(3000 + 17 * v, 'a' + v % 26); };
	auto put = [&] (int v) {
		vh::Ev("vstart").i("v", v).out();
		if (page) server.addGeneratedFile("versions.txt", body(v));
		else {
			std::ofstream(root / "versions.txt", std::ios::binary) << body(v);
			server.reload();
		}
		vh::Ev("vend").i("v", v).out();
	};
	put(0);
	for (int r = 0; r < readers; r++)
		threads.emplace_back([&, r] {
			for (int n = 0; n < 400 && !(over && n > 3); n++) {
				vh::Ev("rstart").i("r", r).out();
				Writer w = ask(server, "/versions.txt");
				int v = -1;
				if (w.kind == "file")
					for (int i = 0; i < versions; i++)
						if (w.out == body(i)) v = i;
				vh::Ev("rend").i("r", r).i("v", v).out();
				if (v < 0) break;
			}
		});
	for (int v = 1; v < versions; v++) {
		put(v);
		if (page && v % 5 == 4) server.reload(); // Pages outlive it
	}
	over = true;
	for (auto& t : threads) t.join();
	vh::Ev("stay").out();
}

static void runCase(const vh::Case& c) {
	std::cout.rdbuf(nullptr);
	std::string base = std::string(getenv("FS_BASE")) + "/XXXXXX";
	if (!mkdtemp(base.data())) abort();
	fs::path outer = base, root = outer / "root";
	fs::create_directory(root);
	std::unique_ptr<DynamicFileServer> dynamic;
	std::unique_ptr<CachingFileServer> caching;
	IHttpGetResponder* server = nullptr;
	for (auto& l : c.lines) {
		if (l[0] == "file" || l[0] == "outside") {
			fs::path p = (l[0] == "file" ? root : outer) / vh::unhex(l[1]);
			fs::create_directories(p.parent_path());
			std::string contents = vh::unhex(l[2]);
			std::ofstream(p, std::ios::binary) << contents;
			if (l[0] == "file") vh::Ev("write").bytes("path", "/" + vh::unhex(l[1])).bytes("b", contents).out();
		} else if (l[0] == "delete") {
			fs::remove(root / vh::unhex(l[1]));
			vh::Ev("delete").bytes("path", "/" + vh::unhex(l[1])).out();
		} else if (l[0] == "dir") {
			fs::create_directories(root / vh::unhex(l[1]));
		} else if (l[0] == "server") {
			dynamic.reset();
			caching.reset();
			vh::Ev("server").s("kind", l[1]).out();
			if (l[1] == "dynamic") { dynamic = std::make_unique<DynamicFileServer>(root); server = dynamic.get(); }
			else { caching = std::make_unique<CachingFileServer>(root); server = caching.get(); }
		} else if (l[0] == "reload" && caching) {
			caching->reload();
			vh::Ev("reload").out();
		} else if (l[0] == "reset" && caching) {
			caching->reset();
			vh::Ev("reset").out();
		} else if (l[0] == "add") {
			std::string name = vh::unhex(l[1]), list = "[", all;
			std::vector<std::string> chunks;
			for (size_t i = 3; i < l.size(); i++) {
				chunks.push_back(vh::unhex(l[i]));
				all += chunks.back();
				std::vector<int64_t> codes;
				for (unsigned char ch : chunks.back()) codes.push_back(ch);
				list += (i > 3 ? "," : "") + vh::ints(codes);
			}
			if (dynamic) {
				auto count = std::make_shared<int>(0);
				dynamic->addGeneratedFile(name, l[2] == "1", [chunks, count] (Callback<void(std::span<const char>)> write) {
					std::string text;
					for (size_t i = 0; i < chunks.size(); i++)
						text += chunks[i] + (i == 0 ? std::to_string(++*count) : "");
					vh::Ev("ran").bytes("b", text).out();
					for (size_t i = 0; i < chunks.size(); i++) {
						std::string part = chunks[i] + (i == 0 ? std::to_string(*count) : "");
						write(std::span<const char>(part.data(), part.size()));
					}
				});
			} else if (l[2] == "1") caching->addGeneratedFile(name, all);
			else caching->addGeneratedFile(name, std::vector<char>(all.begin(), all.end()));
			vh::Ev("add").bytes("name", name).raw("chunks", list + "]").out();
		} else if (l[0] == "get") {
			std::string path = vh::unhex(l[1]);
			report("get", path, ask(*server, path));
		} else if (l[0] == "http") {
			std::string path = vh::unhex(l[1]);
			std::string out = overHttp(*server, path);
			vh::Ev("http").bytes("path", path).bytes("b", out).out();
		} else if (l[0] == "absolute") {
			std::string path = vh::unhex(l[1]) + (outer / vh::unhex(l[2])).string() + vh::unhex(l[3]);
			report("get", path, ask(*server, path));
		} else if (l[0] == "cut" && dynamic) {
			std::string path = vh::unhex(l[1]);
			fs::path p = root / path.substr(1);
			if (!fs::is_regular_file(p)) continue;
			std::string was = slurp(p);
			size_t size = std::min<size_t>(std::stoul(l[2]), was.size());
			Writer w = ask(*server, path, [&] { fs::resize_file(p, size); });
			report("cut", path, w, was);
			fs::resize_file(p, size);
			vh::Ev("write").bytes("path", path).bytes("b", slurp(p)).out();
		} else if (l[0] == "race" && caching) race(*caching, root, std::stoi(l[1]), std::stoi(l[2]), l[3] == "page");
	}
	fs::remove_all(outer);
}
int main() { return vh::runAll(runCase); }
