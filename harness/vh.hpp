// Common part of the harnesses: reads cases from stdin, runs each of them in a child process and writes the events
// the real code produced, one JSON object per line.  A case that crashes, hangs or escapes with an exception leaves
// a "crash" event, which no specification allows.
#ifndef VH_HPP
#define VH_HPP
#include <string>
#include <vector>
#include <string_view>
#include <span>
#include <functional>
#include <iostream>
#include <sstream>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <mutex>
#include <memory>
#include <thread>
#include <chrono>
#include <exception>
#include <unistd.h>
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <fcntl.h>

namespace vh {

using Line = std::vector<std::string>;
struct Case {
	std::string id;
	std::vector<Line> lines;
};

inline std::mutex outLock;

inline void writeAll(int fd, const std::string& text) {
	size_t at = 0;
	while (at < text.size()) {
		ssize_t n = ::write(fd, text.data() + at, text.size() - at);
		if (n <= 0) _exit(97);
		at += n;
	}
}

inline std::string quote(std::string_view s) {
	std::string r = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r + "\"";
}

class Ev {
	std::string _text;
public:
	Ev(std::string_view name) { _text = "{\"e\":" + quote(name); }
	Ev& s(const char* k, std::string_view v) { _text += std::string(",\"") + k + "\":" + quote(v); return *this; }
	Ev& i(const char* k, int64_t v) { _text += std::string(",\"") + k + "\":" + std::to_string(v); return *this; }
	Ev& b(const char* k, bool v) { _text += std::string(",\"") + k + "\":" + (v ? "true" : "false"); return *this; }
	Ev& bytes(const char* k, std::string_view v) {
		_text += std::string(",\"") + k + "\":[";
		for (size_t j = 0; j < v.size(); j++) {
			if (j) _text += ',';
			_text += std::to_string((unsigned char)v[j]);
		}
		_text += "]";
		return *this;
	}
	Ev& raw(const char* k, std::string_view v) { _text += std::string(",\"") + k + "\":" + std::string(v); return *this; }
	std::string text() const { return _text + "}\n"; }
	void out() {
		std::lock_guard lock(outLock);
		writeAll(1, text());
	}
};

inline std::string unhex(const std::string& h) {
	std::string r;
	if (h == "-") return r;
	for (size_t i = 0; i + 1 < h.size(); i += 2)
		r += char(std::stoi(h.substr(i, 2), nullptr, 16));
	return r;
}

inline std::string ints(const std::vector<int64_t>& v) {
	std::string r = "[";
	for (size_t j = 0; j < v.size(); j++) { if (j) r += ','; r += std::to_string(v[j]); }
	return r + "]";
}

inline int runAll(const std::function<void(const Case&)>& runCase) {
	std::vector<Case> cases;
	std::string text;
	while (std::getline(std::cin, text)) {
		std::istringstream in(text);
		Line line;
		std::string word;
		while (in >> word) line.push_back(word);
		if (line.empty()) continue;
		if (line[0] == "case") cases.push_back({line[1], {}});
		else if (line[0] == "end") continue;
		else cases.back().lines.push_back(line);
	}
	int caseTimeout = 20000;
	if (const char* t = getenv("VH_CASE_TIMEOUT")) caseTimeout = atoi(t) * 1000;
	signal(SIGPIPE, SIG_DFL);
	size_t done = 0;
	int hangs = 0;
	while (done < cases.size()) {
		if (hangs >= 3) {
			// There is enough to report, waiting for all of them would take too long
			writeAll(1, "{\"e\":\"begin\",\"c\":" + quote(cases[done].id) + "}\n" + Ev("skipped").text());
			done++;
			continue;
		}
		int progress[2];
		if (pipe(progress)) return 98;
		pid_t child = fork();
		if (child < 0) return 98;
		if (child == 0) {
			close(progress[0]);
			setpgid(0, 0);
			prctl(PR_SET_PDEATHSIG, SIGKILL); // Nothing may stay if the check is stopped
			for (size_t i = done; i < cases.size(); i++) {
				writeAll(1, "{\"e\":\"begin\",\"c\":" + quote(cases[i].id) + "}\n");
				try {
					runCase(cases[i]);
				} catch (std::exception& e) {
					Ev("escaped").s("what", e.what()).out();
				} catch (...) {
					Ev("escaped").s("what", "unknown").out();
				}
				char c = 1;
				if (::write(progress[1], &c, 1) != 1) _exit(97);
			}
			_exit(0);
		}
		close(progress[1]);
		std::string why;
		for (;;) {
			pollfd p{progress[0], POLLIN, 0};
			int r = poll(&p, 1, caseTimeout);
			if (r == 0) {
				why = "hang";
				hangs++;
				kill(-child, SIGKILL);
				kill(child, SIGKILL);
				break;
			}
			char buf[256];
			ssize_t n = ::read(progress[0], buf, sizeof buf);
			if (n <= 0) break;
			done += n;
		}
		close(progress[0]);
		int status = 0;
		waitpid(child, &status, 0);
		if (done < cases.size()) {
			if (why.empty())
				why = WIFSIGNALED(status) ? "signal " + std::to_string(WTERMSIG(status))
						: "exit " + std::to_string(WEXITSTATUS(status));
			writeAll(1, Ev("crash").s("why", why).text());
			done++;
		}
	}
	return 0;
}

} // namespace vh
#endif
