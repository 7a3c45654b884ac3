// Drives the structured writers and readers (JSON, binary, URL form) through IStructuredOutput/IStructuredInput.
#include "bomba_core.hpp"
#include "bomba_json.hpp"
#include "bomba_binary_protocol.hpp"
#include "bomba_http.hpp"
#include "vh.hpp"
#include <random>
#include <cmath>
#include <map>
using namespace Bomba;
using vh::Ev;

struct Tree {
	std::string type; // null bool int real str arr obj kobj opt
	int64_t i = 0;
	double d = 0;
	std::string s, width; // width: i8..u64, f16..f64
	std::vector<std::string> names;
	std::vector<Tree> kids;
};

static SerialisationFlags::Flags flagOf(const std::string& w) {
	static const std::map<std::string, SerialisationFlags::Flags> all = {
		{"i8", SerialisationFlags::INT_8}, {"u8", SerialisationFlags::UINT_8}, {"i16", SerialisationFlags::INT_16}, {"u16", SerialisationFlags::UINT_16},
		{"i32", SerialisationFlags::INT_32}, {"u32", SerialisationFlags::UINT_32}, {"i64", SerialisationFlags::INT_64}, {"u64", SerialisationFlags::UINT_64},
		{"f16", SerialisationFlags::FLOAT_16}, {"f32", SerialisationFlags::FLOAT_32}, {"f64", SerialisationFlags::FLOAT_64}};
	auto f = all.find(w);
	return f == all.end() ? SerialisationFlags::NONE : f->second;
}

// decimal expansion: digits and exponent, exactly
static std::string dec(double x) {
	if (std::isinf(x)) { // only as the neighbour of the largest number
		std::string b = "179769313486231590772930519078902473361797697894230657273430081157732675805500963132708477322407536021120113879871393357658789768814416622492847430639474124377767893424865485276302219601246094119453082952085005768838150682342462881473913110540827237163350510684586298239947245938479716304835356329624224137216", r;
		for (char c : b) r += (r.empty() ? "" : ",") + std::string(1, c);
		return "{\"d\":[" + r + "],\"e\":0}";
	}
	std::string b(1500, 0);
	int n = snprintf(b.data(), b.size(), "%.1100f", x);
	b.resize(n);
	size_t point = b.find('.');
	std::string digits = b.substr(0, point) + b.substr(point + 1);
	int e = -int(b.size() - point - 1);
	while (!digits.empty() && digits.back() == '0') { digits.pop_back(); e++; }
	size_t lead = 0;
	while (lead < digits.size() && digits[lead] == '0') lead++;
	digits = digits.substr(lead);
	if (digits.empty()) e = 0;
	std::string r = "{\"d\":[";
	for (size_t i = 0; i < digits.size(); i++) { if (i) r += ','; r += digits[i]; }
	return r + "],\"e\":" + std::to_string(e) + "}";
}
static std::string le(const void* p, int n) {
	std::vector<int64_t> v;
	for (int i = 0; i < n; i++) v.push_back(((const unsigned char*)p)[i]);
	return vh::ints(v);
}
static Ev& addInt(Ev& e, int64_t v) {
	e.bytes("t", std::to_string(v));
	e.raw("le", le(&v, 8));
	return e;
}
static Ev& addReal(Ev& e, double v, bool decimal) {
	double a = std::fabs(v);
	e.b("neg", std::signbit(v));
	e.raw("le", le(&v, 8));
	if (decimal) {
		e.raw("lo", dec(std::nextafter(a, 0.0)));
		e.raw("x", dec(a));
		e.raw("hi", dec(std::nextafter(a, INFINITY)));
	} else {
		int exponent = 0;
		double m = a == 0 ? 0 : std::frexp(a, &exponent);
		exponent -= 24;
		m = std::ldexp(m, 24);
		bool small = m == std::floor(m);
		e.i("m", small ? int64_t(m) : -1).i("x", exponent); // a = m * 2^x with m in 2^23..2^24-1
	}
	return e;
}

static Tree parseTree(const vh::Case& c, size_t& at) {
	const vh::Line& l = c.lines[at++];
	Tree t;
	t.type = l[0];
	if (t.type == "bool") t.i = std::stoi(l[1]);
	if (t.type == "int") { t.i = std::stoll(l[1]); t.width = l.size() > 2 ? l[2] : ""; }
	if (t.type == "real") {
		uint64_t bits = std::stoull(l[1], nullptr, 16);
		memcpy(&t.d, &bits, 8);
		t.width = l.size() > 2 ? l[2] : "";
	}
	if (t.type == "str") t.s = vh::unhex(l[1]);
	if (t.type == "arr" || t.type == "obj" || t.type == "kobj") {
		t.i = std::stoi(l[1]);
		for (int i = 0; i < t.i; i++) {
			if (t.type != "arr") t.names.push_back(vh::unhex(c.lines[at++][1]));
			t.kids.push_back(parseTree(c, at));
		}
	}
	if (t.type == "opt") {
		t.i = std::stoi(l[1]);
		t.kids.push_back(parseTree(c, at)); // also if absent, for the type
	}
	return t;
}

static bool decimals = true;
static std::string fmt;
constexpr auto NONE = SerialisationFlags::NONE;

static void write(IStructuredOutput& out, const Tree& t) {
	if (t.type == "null") { Ev("wn").out(); out.writeNull(fmt == "form" ? SerialisationFlags::EMPTY_IS_NULL : NONE); }
	else if (t.type == "bool") { Ev("wb").b("v", t.i).out(); out.writeBool(NONE, t.i); }
	else if (t.type == "int") { Ev e("wi"); addInt(e, t.i).s("w", t.width).out(); out.writeInt(flagOf(t.width), t.i); }
	else if (t.type == "real") { Ev e("wf"); addReal(e, t.d, decimals).s("w", t.width).out(); out.writeFloat(flagOf(t.width), t.d); }
	else if (t.type == "str") { Ev("ws").bytes("v", t.s).out(); out.writeString(NONE, t.s); }
	else if (t.type == "arr") {
		Ev("wa").i("n", t.i).out();
		out.startWritingArray(NONE, t.i);
		for (int i = 0; i < t.i; i++) { out.introduceArrayElement(NONE, i); write(out, t.kids[i]); }
		out.endWritingArray(NONE);
		Ev("wea").out();
	} else if (t.type == "obj" || t.type == "kobj") {
		auto f = t.type == "kobj" ? SerialisationFlags::OBJECT_LAYOUT_KNOWN : NONE;
		Ev("wo").i("n", t.i).b("known", t.type == "kobj").out();
		out.startWritingObject(f, t.i);
		for (int i = 0; i < t.i; i++) {
			Ev("wom").bytes("v", t.names[i]).out();
			out.introduceObjectMember(f, t.names[i], i);
			write(out, t.kids[i]);
		}
		out.endWritingObject(f);
		Ev("weo").out();
	} else if (t.type == "opt") {
		Ev("wopt").b("v", t.i).out();
		out.writeOptional(fmt == "form" ? SerialisationFlags::EMPTY_IS_NULL : NONE, t.i, [&] { write(out, t.kids[0]); });
	}
}
// the same through the convenience classes
static void fill(IStructuredOutput::ArrayFiller& out, const Tree& t);
template <typename Filler, typename... Name>
static void fillOne(Filler& out, const Tree& k, Name... name) {
	if (k.type == "null") { Ev("wn").out(); out.writeNull(name...); }
	else if (k.type == "bool") { Ev("wb").b("v", k.i).out(); out.writeBool(name..., k.i); }
	else if (k.type == "int" && (k.width.empty() || k.width == "i32")) { Ev e("wi"); addInt(e, k.i).s("w", k.width).out(); out.writeInt(name..., k.i); }
	else if (k.type == "real" && k.width.empty()) { Ev e("wf"); addReal(e, k.d, decimals).s("w", k.width).out(); out.writeFloat(name..., k.d); }
	else if (k.type == "str") { Ev("ws").bytes("v", k.s).out(); out.writeString(name..., k.s); }
	else if (k.type == "arr") {
		Ev("wa").i("n", k.i).out();
		{
			auto sub = out.writeArray(name..., int(k.i));
			for (auto& kk : k.kids) fillOne(sub, kk);
		}
		Ev("wea").out();
	} else if (k.type == "obj") {
		Ev("wo").i("n", k.i).b("known", false).out();
		{
			auto sub = out.writeObject(name..., int(k.i));
			for (size_t i = 0; i < k.kids.size(); i++) {
				Ev("wom").bytes("v", k.names[i]).out();
				fillOne(sub, k.kids[i], std::string_view(k.names[i]));
			}
		}
		Ev("weo").out();
	} else
		write(out.introduceMember(name...), k);
}
static void fillRoot(IStructuredOutput& out, const Tree& t) {
	if (t.type == "arr") {
		Ev("wa").i("n", t.i).out();
		{
			auto filler = out.writeArray(t.i);
			for (auto& k : t.kids) fillOne(filler, k);
		}
		Ev("wea").out();
	} else if (t.type == "obj") {
		Ev("wo").i("n", t.i).b("known", false).out();
		{
			auto filler = out.writeObject(t.i);
			for (size_t i = 0; i < t.kids.size(); i++) {
				Ev("wom").bytes("v", t.names[i]).out();
				fillOne(filler, t.kids[i], std::string_view(t.names[i]));
			}
		}
		Ev("weo").out();
	} else
		write(out, t);
}

// Generic reading, led by the types the reader identifies (JSON, form)
struct Walk {
	IStructuredInput& in;
	std::mt19937 rng;
	bool moves;
	std::string op;
	bool chance(int percent) { return moves && int(rng() % 100) < percent; }

	void integer() { op = "int"; int64_t v = in.readInt(NONE); op.clear(); Ev e("int"); addInt(e, v).out(); }
	void real() { double v = in.readFloat(NONE); Ev e("real"); addReal(e, v, true).out(); }
	void value(int depth = 0) {
		if (fmt == "form" && depth == 0) { object(depth); return; }
		if (depth > 0 && chance(12)) {
			in.skipObjectElement(NONE);
			Ev("skip").out();
			return;
		}
		if (chance(10)) {
			auto place = in.storePosition(NONE);
			Ev("store").out();
			value(depth ? depth : 1);
			in.restorePosition(NONE, place);
			Ev("restore").out();
		}
		if (chance(8)) {
			bool present = in.readOptional(fmt == "form" ? SerialisationFlags::EMPTY_IS_NULL : NONE, [&] {
				Ev("opt").b("v", true).out();
				value(depth);
			});
			if (!present) Ev("opt").b("v", false).out();
			return;
		}
		static const char* names[] = {"int", "real", "str", "bool", "null", "arr", "obj", "invalid"};
		auto type = in.identifyType(NONE);
		Ev("type").s("v", names[type]).out();
		switch (type) {
		case IStructuredInput::TYPE_INTEGER:
			if (fmt == "form" && chance(15)) { std::string s(in.readString(NONE)); Ev("str").bytes("v", s).out(); }
			else if (chance(20)) real(); else integer();
			break;
		case IStructuredInput::TYPE_FLOAT: real(); break;
		case IStructuredInput::TYPE_STRING: {
			if (fmt == "form" && chance(10)) { bool b = in.readBool(NONE); Ev("bool").b("v", b).out(); break; }
			std::string s(in.readString(NONE));
			Ev("str").bytes("v", s).out();
			break;
		}
		case IStructuredInput::TYPE_BOOLEAN: { bool b = in.readBool(NONE); Ev("bool").b("v", b).out(); break; }
		case IStructuredInput::TYPE_NULL: in.readNull(NONE); Ev("null").out(); break;
		case IStructuredInput::TYPE_ARRAY:
			in.startReadingArray(NONE);
			Ev("arr").out();
			for (;;) {
				bool more = in.nextArrayElement(NONE);
				Ev("next").b("v", more).out();
				if (!more) break;
				value(depth + 1);
			}
			in.endReadingArray(NONE);
			Ev("end").out();
			break;
		case IStructuredInput::TYPE_OBJECT: object(depth); break;
		default: throw std::runtime_error("invalid type");
		}
	}
	void object(int depth) {
		Ev("obj").out();
		in.readObject(NONE, [&] (std::optional<std::string_view> name, int index) {
			Ev("member").bytes("v", name ? *name : std::string_view("?")).i("i", index).out();
			value(depth + 1);
			return true;
		});
		Ev("oend").out();
	}
};

// Reading led by a given structure (binary)
struct Guided {
	IStructuredInput& in;
	std::mt19937 rng;
	bool moves;
	std::string op;
	bool chance(int percent) { return moves && int(rng() % 100) < percent; }
	void check(const char* what) { op = what; }
	void value(const Tree& t) {
		if (chance(10)) {
			auto place = in.storePosition(NONE);
			Ev("store").out();
			value(t);
			in.restorePosition(NONE, place);
			Ev("restore").out();
		}
		if (t.type == "null") { in.readNull(NONE); Ev("null").out(); }
		else if (t.type == "bool") { op = "bool"; bool b = in.readBool(NONE); Ev("bool").b("v", b).out(); }
		else if (t.type == "int") { op = "int " + t.width; int64_t v = in.readInt(flagOf(t.width)); Ev e("int"); addInt(e, v).s("w", t.width).out(); }
		else if (t.type == "real") { op = "real " + t.width; double v = in.readFloat(flagOf(t.width)); Ev e("real"); addReal(e, v, false).s("w", t.width).out(); }
		else if (t.type == "str") { op = "str"; std::string s(in.readString(NONE)); Ev("str").bytes("v", s).out(); }
		else if (t.type == "arr") {
			op = "arr";
			in.startReadingArray(NONE);
			Ev("arr").out();
			for (int i = 0;; i++) {
				bool more = in.nextArrayElement(NONE);
				Ev("next").b("v", more).out();
				if (!more) break;
				if (t.kids.empty()) throw std::runtime_error("unexpected element");
				value(t.kids[std::min<size_t>(i, t.kids.size() - 1)]);
			}
			in.endReadingArray(NONE);
			Ev("end").out();
		} else if (t.type == "obj" || t.type == "kobj") {
			bool known = t.type == "kobj";
			op = known ? "kobj" : "obj";
			bool started = false;
			auto start = [&] {
				if (!started) Ev("obj").b("known", known).i("n", t.i).out();
				started = true;
			};
			in.readObject(known ? SerialisationFlags::OBJECT_LAYOUT_KNOWN : NONE, [&] (std::optional<std::string_view> name, int index) {
				start();
				if (known) {
					if (index >= t.i) return false;
					Ev("kmember").i("i", index).out();
				} else
					Ev("member").bytes("v", name ? *name : std::string_view("?")).i("i", index).out();
				value(t.kids[std::min<size_t>(index, t.kids.size() - 1)]);
				op = "member";
				return known ? index + 1 < t.i : true;
			});
			start();
			Ev("oend").b("known", known).out();
		} else if (t.type == "opt") {
			op = "opt";
			bool present = in.readOptional(NONE, [&] {
				Ev("opt").b("v", true).out();
				value(t.kids[0]);
			});
			if (!present) Ev("opt").b("v", false).out();
		}
	}
};

static void readWith(IStructuredInput& in, int seed, const Tree* guide) {
	Guided g{in, std::mt19937(seed), seed != 0};
	Walk walk{in, std::mt19937(seed), seed != 0};
	try {
		if (guide)
			g.value(*guide);
		else
			walk.value();
		Ev("done").b("good", in.good).out();
	} catch (std::exception& e) {
		Ev("err").s("op", guide ? g.op : walk.op).s("what", e.what()).out();
	}
}

static void runCase(const vh::Case& c) {
	std::string text;
	std::unique_ptr<Tree> tree;
	fmt = "json";
	int sizeBytes = 2;
	for (size_t at = 0; at < c.lines.size();) {
		const vh::Line& l = c.lines[at];
		if (l[0] == "fmt") {
			fmt = l[1];
			decimals = fmt != "bin";
			if (l.size() > 2) sizeBytes = std::stoi(l[2]);
			Ev("fmt").i("s", sizeBytes).out();
			at++;
		} else if (l[0] == "tree") {
			at++;
			tree = std::make_unique<Tree>(parseTree(c, at));
		} else if (l[0] == "write" || l[0] == "fill") {
			auto go = [&] (IStructuredOutput& out) {
				if (l[0] == "fill") fillRoot(out, *tree); else write(out, *tree);
			};
			try {
				if (fmt == "json") {
					if (at % 2) { std::string s; BasicJson<>::Output out(s); go(out); text = s; }
					else {
						ExpandingBuffer<64> buffer;
						BasicJson<std::string, GeneralisedBuffer>::Output out(buffer);
						go(out);
						text = std::string(std::string_view(buffer));
					}
				} else if (fmt == "form") {
					ExpandingBuffer<64> buffer;
					HtmlMessageEncoding<>::Output out(buffer);
					go(out);
					text = std::string(std::string_view(buffer));
				} else if (sizeBytes == 2) { std::string s; BinaryFormat<>::Output out(s); go(out); text = s; }
				else if (sizeBytes == 1) { std::string s; BinaryFormat<std::string, uint8_t>::Output out(s); go(out); text = s; }
				else if (sizeBytes == 4) { std::string s; BinaryFormat<std::string, uint32_t>::Output out(s); go(out); text = s; }
				else { std::string s; BinaryFormat<std::string, uint64_t>::Output out(s); go(out); text = s; }
				Ev("text").bytes("b", text).out();
			} catch (std::exception& e) {
				Ev("werr").s("what", e.what()).out();
				return;
			}
			at++;
		} else if (l[0] == "text") {
			text = vh::unhex(l[1]);
			at++;
			Ev("given").bytes("b", text).out();
		} else if (l[0] == "cut") {
			text.resize(std::min<size_t>(text.size(), std::stoi(l[1])));
			at++;
			Ev("cut").bytes("b", text).out();
		} else if (l[0] == "read") {
			// exactly the message in memory, so that reading beyond it is noticed
			std::unique_ptr<char[]> exact(new char[text.size()]);
			memcpy(exact.get(), text.data(), text.size());
			std::string_view view(exact.get(), text.size());
			int seed = std::stoi(l[1]);
			Ev("read").out();
			if (fmt == "json") { BasicJson<>::Input in(view); readWith(in, seed, nullptr); }
			else if (fmt == "form") { HtmlMessageEncoding<>::Input in(view); readWith(in, seed, nullptr); }
			else if (sizeBytes == 2) { BinaryFormat<>::Input in(view); readWith(in, seed, tree.get()); }
			else if (sizeBytes == 1) { BinaryFormat<std::string, uint8_t>::Input in(view); readWith(in, seed, tree.get()); }
			else if (sizeBytes == 4) { BinaryFormat<std::string, uint32_t>::Input in(view); readWith(in, seed, tree.get()); }
			else { BinaryFormat<std::string, uint64_t>::Input in(view); readWith(in, seed, tree.get()); }
			at++;
		} else
			throw std::runtime_error("bad line " + l[0]);
	}
}

int main() { return vh::runAll(runCase); }
