/* A server around libsub's public API.  It reads length-prefixed requests on stdin, runs one
 * operation each, and answers with one length-prefixed JSON document.  It contains no oracle.
 *
 * Request:  u32 length, then tokens: (u32 length, bytes)*.  token 0 = flags ("f": run in a forked child),
 * token 1 = operation, the rest are arguments.  All numbers are ASCII decimal; floats travel as their bits.
 * Response: u32 length, JSON with every byte >= 0x80 written as \u00XX.
 */
#include "collect.h"
#include "colour.h"
#include "effect.h"
#include "exceptions.h"
#include "font_size.h"
#include "horizontal_position.h"
#include "iso6937.h"
#include "reader_factory.h"
#include "ssa_reader.h"
#include "stl_binary_reader.h"
#include "stl_binary_tables.h"
#include "stl_binary_writer.h"
#include "stl_text_reader.h"
#include "stl_util.h"
#include "sub_time.h"
#include "subrip_reader.h"
#include "subtitle.h"
#include "util.h"
#include "vertical_position.h"
#include "vertical_reference.h"
#include "web_vtt_reader.h"
#include <atomic>
#include <boost/lexical_cast.hpp>
#include <clocale>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <list>
#include <locale>
#include <new>
#include <signal.h>
#include <sched.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <typeinfo>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define VERIF_ASAN
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VERIF_ASAN
#endif
#endif
#ifdef VERIF_ASAN
#include <sanitizer/allocator_interface.h>
#endif

using std::string;
using std::vector;
using boost::optional;

extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=1:max_allocation_size_mb=2048"; }
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:print_stacktrace=1:exitcode=86"; }

extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=87:report_thread_leaks=0:history_size=4"; }

/* what libstdc++ remembers about a locale in its own way is not the library's */
extern "C" const char* __tsan_default_suppressions() { return "race:std::ctype<char>::\n"; }

/* ---- failing allocations (only in the oom target) ---- */

/* number of allocations made while counting, and which of them fails (none if < 0); with g_rest so do all after it */
static bool g_counting = false, g_rest = false;
static long long g_count = 0, g_fail = -1, g_failed = 0;

#ifdef VERIF_OOM
static bool denied()
{
	if (!g_counting) return false;
	long long const n = g_count++;
	if (g_fail < 0 || n < g_fail || (n > g_fail && !g_rest)) return false;
	++g_failed;
	return true;
}
void* operator new(size_t n) { void* p = denied() ? nullptr : malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return denied() ? nullptr : malloc(n ? n : 1); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return denied() ? nullptr : malloc(n ? n : 1); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { free(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { free(p); }
#endif

struct Counting { Counting() { g_counting = true; } ~Counting() { g_counting = false; } };

/* ---- JSON output ---- */

static void js(string& o, string const& s)
{
	static char const* hex = "0123456789abcdef";
	o += '"';
	for (unsigned char c: s) {
		if (c == '"' || c == '\\') {
			o += '\\'; o += c;
		} else if (c < 0x20 || c >= 0x7f) {
			o += "\\u00"; o += hex[c >> 4]; o += hex[c & 15];
		} else {
			o += c;
		}
	}
	o += '"';
}

static void ji(string& o, long long v) { o += std::to_string(v); }

static void jd(string& o, double v, int prec)
{
	if (v != v) { o += "\"nan\""; return; }
	if (v > 1e300 || v < -1e300) { o += v > 0 ? "\"inf\"" : "\"-inf\""; return; }
	char b[64];
	snprintf(b, sizeof b, "%.*g", prec, v);
	/* whatever the decimal point of the locale is, write one dot */
	bool dot = false;
	for (char* p = b; *p; ++p) {
		if (strchr("0123456789+-eE", *p)) o += *p;
		else { if (!dot) o += '.'; dot = true; }
	}
}
static void jf(string& o, float v) { jd(o, v, 9); }

template <class T, class F> static void jopt(string& o, optional<T> const& v, F f) { if (v) f(o, *v); else o += "null"; }

static string time_string(sub::Time const& t)
{
	std::ostringstream s;
	s.imbue(std::locale::classic());
	s << t;
	return s.str();
}

/* [h, m, s, milliseconds or null, printed form] */
static void jtime(string& o, sub::Time const& t)
{
	o += '['; ji(o, t.hours()); o += ','; ji(o, t.minutes()); o += ','; ji(o, t.seconds()); o += ',';
	try { int const ms = t.milliseconds(); ji(o, ms); } catch (sub::UnknownFrameRateError&) { o += "null"; }
	o += ','; js(o, time_string(t)); o += ']';
}

static void jcol(string& o, sub::Colour const& c) { o += '['; jf(o, c.r); o += ','; jf(o, c.g); o += ','; jf(o, c.b); o += ']'; }

static void jvp(string& o, sub::VerticalPosition const& v)
{
	o += '['; jopt(o, v.proportional, jf); o += ','; jopt(o, v.line, [](string& o, int x){ji(o,x);}); o += ',';
	jopt(o, v.lines, [](string& o, int x){ji(o,x);}); o += ','; jopt(o, v.reference, [](string& o, sub::VerticalReference x){ji(o,x);}); o += ']';
}

static void jhp(string& o, sub::HorizontalPosition const& h) { o += '['; jf(o, h.proportional); o += ','; ji(o, h.reference); o += ']'; }

template <class B> static void jblock(string& o, B const& b)
{
	o += "{\"text\":"; js(o, b.text);
	o += ",\"font\":"; jopt(o, b.font, js);
	o += ",\"fs\":["; jopt(o, b.font_size.proportional(), jf); o += ','; jopt(o, b.font_size.points(), [](string& o, int x){ji(o,x);}); o += ']';
	o += ",\"effect\":"; jopt(o, b.effect, [](string& o, sub::Effect x){ji(o,x);});
	o += ",\"ecol\":"; jopt(o, b.effect_colour, jcol);
	o += ",\"col\":"; jcol(o, b.colour);
	o += ",\"biu\":"; o += b.bold ? "\"B" : "\"b"; o += b.italic ? "I" : "i"; o += b.underline ? "U\"" : "u\"";
}

static void jraw(string& o, sub::RawSubtitle const& r)
{
	jblock(o, r);
	o += ",\"hp\":"; jhp(o, r.horizontal_position);
	o += ",\"vp\":"; jvp(o, r.vertical_position);
	o += ",\"from\":"; jtime(o, r.from); o += ",\"to\":"; jtime(o, r.to);
	o += ",\"fup\":"; jopt(o, r.fade_up, jtime); o += ",\"fdn\":"; jopt(o, r.fade_down, jtime);
	o += '}';
}

static void jraws(string& o, vector<sub::RawSubtitle> const& v)
{
	o += '[';
	bool first = true;
	for (auto const& i: v) { if (!first) o += ','; first = false; jraw(o, i); }
	o += ']';
}

template <class C> static void jsubs(string& o, C const& v)
{
	o += '[';
	bool first = true;
	for (auto const& s: v) {
		if (!first) o += ',';
		first = false;
		o += "{\"from\":"; jtime(o, s.from); o += ",\"to\":"; jtime(o, s.to);
		o += ",\"fup\":"; jopt(o, s.fade_up, jtime); o += ",\"fdn\":"; jopt(o, s.fade_down, jtime);
		o += ",\"lines\":[";
		bool fl = true;
		for (auto const& l: s.lines) {
			if (!fl) o += ',';
			fl = false;
			o += "{\"hp\":"; jhp(o, l.horizontal_position); o += ",\"vp\":"; jvp(o, l.vertical_position); o += ",\"blocks\":[";
			bool fb = true;
			for (auto const& b: l.blocks) { if (!fb) o += ','; fb = false; jblock(o, b); o += '}'; }
			o += "]}";
		}
		o += "]}";
	}
	o += ']';
}

static void jctx(string& o, std::list<string> const& c)
{
	o += '[';
	bool f = true;
	for (auto const& i: c) { if (!f) o += ','; f = false; js(o, i); }
	o += ']';
}

/* ---- requests ---- */

struct Cur
{
	vector<string> t;
	size_t n = 0;
	string const& s() { if (n >= t.size()) { fprintf(stderr, "driver: short request\n"); _exit(3); } return t[n++]; }
	long long i() { return parse(s()); }
	static long long parse(string const& x) { return strtoll(x.c_str(), nullptr, 10); }
};

static float bits_float(string const& x) { uint32_t u = strtoul(x.c_str(), nullptr, 10); float f; memcpy(&f, &u, 4); return f; }

/* space separated sub-fields, "-" = absent */
struct Fields
{
	vector<string> f;
	size_t n = 0;
	explicit Fields(string const& s) { size_t p = 0; while (p < s.size()) { size_t q = s.find(' ', p); if (q == string::npos) q = s.size(); f.push_back(s.substr(p, q - p)); p = q + 1; } }
	string const& s() { if (n >= f.size()) { fprintf(stderr, "driver: short field\n"); _exit(3); } return f[n++]; }
	long long i() { return Cur::parse(s()); }
	float fl() { return bits_float(s()); }
	optional<int> oi() { string const& x = s(); if (x == "-") return {}; return int(Cur::parse(x)); }
	optional<float> ofl() { string const& x = s(); if (x == "-") return {}; return bits_float(x); }
	/* kind,h,m,s,f,num,den ; kind: n = no rate, r = hmsf with rate, m = from_hms (f = ms), f = from_frames(f) */
	static sub::Time time_of(string const& x)
	{
		vector<long long> v;
		size_t p = 2;
		while (p <= x.size()) { size_t q = x.find(',', p); if (q == string::npos) q = x.size(); v.push_back(Cur::parse(x.substr(p, q - p))); p = q + 1; }
		switch (x[0]) {
		case 'n': return sub::Time::from_hmsf(v[0], v[1], v[2], v[3]);
		case 'r': return sub::Time::from_hmsf(v[0], v[1], v[2], v[3], sub::Rational(v[4], v[5]));
		case 'm': return sub::Time::from_hms(v[0], v[1], v[2], v[3]);
		case 'f': return sub::Time::from_frames(v[3], sub::Rational(v[4], v[5]));
		}
		return sub::Time();
	}
	sub::Time t() { return time_of(s()); }
	optional<sub::Time> ot() { string const& x = s(); if (x == "-") return {}; return time_of(x); }
	sub::VerticalPosition vp()
	{
		sub::VerticalPosition v;
		v.proportional = ofl(); v.line = oi(); v.lines = oi();
		auto r = oi();
		if (r) v.reference = static_cast<sub::VerticalReference>(*r);
		return v;
	}
	sub::HorizontalPosition hp()
	{
		sub::HorizontalPosition h;
		h.proportional = fl(); h.reference = static_cast<sub::HorizontalReference>(i());
		return h;
	}
};

template <class B> static void get_block(Cur& c, Fields& f, B& b)
{
	b.text = c.s();
	string const font = c.s();
	if (font.size() && font[0] == '+') b.font = font.substr(1);
	f = Fields(c.s());
	b.bold = f.i(); b.italic = f.i(); b.underline = f.i();
	b.colour.r = f.fl(); b.colour.g = f.fl(); b.colour.b = f.fl();
	auto p = f.ofl(); if (p) b.font_size.set_proportional(*p);
	auto q = f.oi(); if (q) b.font_size.set_points(*q);
	auto e = f.oi(); if (e) b.effect = static_cast<sub::Effect>(*e);
	auto er = f.ofl(); auto eg = f.ofl(); auto eb = f.ofl();
	if (er) b.effect_colour = sub::Colour(*er, *eg, *eb);
}

static vector<sub::RawSubtitle> get_raws(Cur& c)
{
	vector<sub::RawSubtitle> v;
	long long n = c.i();
	while (n-- > 0) {
		sub::RawSubtitle r;
		Fields f("");
		get_block(c, f, r);
		r.horizontal_position = f.hp();
		r.vertical_position = f.vp();
		r.from = f.t(); r.to = f.t(); r.fade_up = f.ot(); r.fade_down = f.ot();
		v.push_back(r);
	}
	return v;
}

static vector<sub::Subtitle> get_subs(Cur& c)
{
	vector<sub::Subtitle> v;
	long long n = c.i();
	while (n-- > 0) {
		sub::Subtitle s;
		Fields f(c.s());
		s.from = f.t(); s.to = f.t(); s.fade_up = f.ot(); s.fade_down = f.ot();
		long long nl = f.i();
		while (nl-- > 0) {
			sub::Line l;
			Fields g(c.s());
			l.horizontal_position = g.hp(); l.vertical_position = g.vp();
			long long nb = g.i();
			while (nb-- > 0) {
				sub::Block b;
				Fields h("");
				get_block(c, h, b);
				l.blocks.push_back(b);
			}
			s.lines.push_back(l);
		}
		v.push_back(s);
	}
	return v;
}

static FILE* data_file(string const& data)
{
	int fd = memfd_create("d", 0);
	if (fd < 0) { perror("memfd"); _exit(3); }
	size_t o = 0;
	while (o < data.size()) { ssize_t w = write(fd, data.data() + o, data.size() - o); if (w <= 0) { perror("write"); _exit(3); } o += w; }
	lseek(fd, 0, SEEK_SET);
	return fdopen(fd, "r");
}

struct Closer { FILE* f; ~Closer() { if (f) fclose(f); } };

static thread_local string g_scratch;

static std::shared_ptr<sub::Reader> make_reader(string const& fmt, string const& src, string const& data)
{
	using namespace sub;
	std::shared_ptr<Reader> r;
	if (src == "string") {
		if (fmt == "srt") return std::make_shared<SubripReader>(data);
		if (fmt == "ssa") return std::make_shared<SSAReader>(data);
		if (fmt == "vtt") return std::make_shared<WebVTTReader>(data);
	} else if (src == "file") {
		Closer c{data_file(data)};
		if (fmt == "srt") return std::make_shared<SubripReader>(c.f);
		if (fmt == "ssa") return std::make_shared<SSAReader>(c.f);
		if (fmt == "vtt") return std::make_shared<WebVTTReader>(c.f);
		if (fmt == "stlbin") return std::make_shared<STLBinaryReader>(c.f);
	} else if (src == "stream") {
		std::istringstream s(data);
		if (fmt == "stltext") return std::make_shared<STLTextReader>(s);
		if (fmt == "stlbin") return std::make_shared<STLBinaryReader>(s);
	} else if (src == "fstream") {
		string const p = g_scratch + "/fstream.dat";
		{ std::ofstream o(p.c_str(), std::ios::binary); o << data; }
		std::ifstream s(p.c_str());
		if (fmt == "stltext") return std::make_shared<STLTextReader>(s);
		if (fmt == "stlbin") return std::make_shared<STLBinaryReader>(s);
	}
	fprintf(stderr, "driver: bad format %s/%s\n", fmt.c_str(), src.c_str());
	_exit(3);
}

static void jreader(string& o, sub::Reader const& r)
{
	o += "{\"kind\":";
	auto b = dynamic_cast<sub::STLBinaryReader const*>(&r);
	js(o, b ? "stlbin" : dynamic_cast<sub::STLTextReader const*>(&r) ? "stltext" : dynamic_cast<sub::SubripReader const*>(&r) ? "srt"
	   : dynamic_cast<sub::SSAReader const*>(&r) ? "ssa" : dynamic_cast<sub::WebVTTReader const*>(&r) ? "vtt" : "?");
	o += ",\"subs\":"; jraws(o, r.subtitles());
	o += ",\"meta\":{";
	bool first = true;
	for (auto const& i: r.metadata()) { if (!first) o += ','; first = false; js(o, i.first); o += ':'; js(o, i.second); }
	o += '}';
	if (b) {
		o += ",\"gsi\":[";
		ji(o, b->code_page_number); o += ','; ji(o, b->frame_rate); o += ','; ji(o, b->display_standard); o += ','; ji(o, b->language_group); o += ','; ji(o, b->language);
		for (auto s: { &b->original_programme_title, &b->original_episode_title, &b->translated_programme_title, &b->translated_episode_title,
			&b->translator_name, &b->translator_contact_details, &b->subtitle_list_reference_code, &b->creation_date, &b->revision_date, &b->revision_number }) { o += ','; js(o, *s); }
		for (int v: { b->tti_blocks, b->number_of_subtitles, b->subtitle_groups, b->maximum_characters, b->maximum_rows, int(b->timecode_status) }) { o += ','; ji(o, v); }
		o += ','; js(o, b->start_of_programme); o += ','; js(o, b->first_in_cue); o += ','; ji(o, b->disks); o += ','; ji(o, b->disk_sequence_number);
		for (auto s: { &b->country_of_origin, &b->publisher, &b->editor_name, &b->editor_contact_details }) { o += ','; js(o, *s); }
		o += ']';
	}
	o += '}';
}

static int fd_count()
{
	DIR* d = opendir("/proc/self/fd");
	int n = 0;
	while (readdir(d)) ++n;
	closedir(d);
	return n;
}

/* bytes that the program holds at the moment */
static long long allocated()
{
#ifdef VERIF_ASAN
	return __sanitizer_get_current_allocated_bytes();
#else
	return 0;
#endif
}

static string slurp(string const& p)
{
	std::ifstream f(p.c_str(), std::ios::binary);
	std::ostringstream s;
	s << f.rdbuf();
	return s.str();
}

struct WriteArgs { float fps; int lang; vector<string> str; string cdate, rdate; int revision; string path; };

static WriteArgs get_write_args(Cur& c)
{
	WriteArgs a;
	a.path = c.s();
	a.fps = bits_float(c.s());
	a.lang = c.i();
	for (int i = 0; i < 6; ++i) a.str.push_back(c.s());
	a.cdate = c.s(); a.rdate = c.s(); a.revision = c.i();
	for (int i = 0; i < 4; ++i) a.str.push_back(c.s());
	return a;
}

static void do_write(vector<sub::Subtitle> const& subs, WriteArgs const& a)
{
	sub::write_stl_binary(subs, a.fps, static_cast<sub::Language>(a.lang), a.str[0], a.str[1], a.str[2], a.str[3], a.str[4], a.str[5],
		a.cdate, a.rdate, a.revision, a.str[6], a.str[7], a.str[8], a.str[9], a.path);
}

static void utf8_put(string& o, unsigned c)
{
	if (c < 0x80) o += char(c);
	else if (c < 0x800) { o += char(0xc0 | c >> 6); o += char(0x80 | (c & 63)); }
	else if (c < 0x10000) { o += char(0xe0 | c >> 12); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
	else { o += char(0xf0 | c >> 18); o += char(0x80 | (c >> 12 & 63)); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
}

static void exec(string const& op, Cur& c, string& o);

static void err(string& o, string const& type, std::exception const* e)
{
	o = "{\"err\":"; js(o, type);
	if (e) { o += ",\"what\":"; js(o, e->what()); }
}

/* Run one operation, turning exceptions into {"err":...} */
static string guarded(string const& op, Cur& c)
{
	string o;
	try {
		string r;
		exec(op, c, r);
		return "{\"ok\":" + r + "}";
	} catch (sub::SubripError& e) {
		err(o, "SubripError", &e); o += ",\"line\":"; ji(o, e.line_number()); o += ",\"context\":"; jctx(o, e.context());
	} catch (sub::WebVTTHeaderError& e) {
		err(o, "WebVTTHeaderError", &e);
	} catch (sub::WebVTTError& e) {
		err(o, "WebVTTError", &e); o += ",\"context\":"; jctx(o, e.context());
	} catch (sub::SSAError& e) {
		err(o, "SSAError", &e);
	} catch (sub::STLError& e) {
		err(o, "STLError", &e);
	} catch (sub::XMLError& e) {
		err(o, "XMLError", &e);
	} catch (sub::UnknownFrameRateError& e) {
		err(o, "UnknownFrameRateError", &e);
	} catch (sub::ProgrammingError& e) {
		err(o, "ProgrammingError", &e);
	} catch (boost::bad_lexical_cast& e) {
		err(o, "bad_lexical_cast", &e);
	} catch (std::exception& e) {
		err(o, string("std:") + typeid(e).name(), &e);
	} catch (...) {
		err(o, "NOT_STD_EXCEPTION", nullptr);
	}
	if (op == "open") {
		/* the name of the scratch directory is of no interest */
		for (size_t p; (p = o.find(g_scratch)) != string::npos; ) o.erase(p, g_scratch.size());
	}
	return o + "}";
}

/* evaluate an expression that may throw, as a JSON value: the value, or {"err": type} */
template <class F> static void jtry(string& o, F f)
{
	string r;
	try { f(r); o += r; }
	catch (sub::UnknownFrameRateError&) { o += "{\"err\":\"UnknownFrameRateError\"}"; }
	catch (sub::ProgrammingError&) { o += "{\"err\":\"ProgrammingError\"}"; }
	catch (sub::STLError& e) { o += "{\"err\":\"STLError\",\"what\":"; js(o, e.what()); o += "}"; }
	catch (sub::XMLError&) { o += "{\"err\":\"XMLError\"}"; }
	catch (std::exception& e) { o += "{\"err\":"; js(o, string("std:") + typeid(e).name()); o += "}"; }
}

static void jbool(string& o, bool b) { o += b ? "true" : "false"; }

static void table_call(string const& fn, string const& arg, string& r)
{
	static sub::STLBinaryTables const T;
	int const n = Cur::parse(arg);
	if (fn == "language_group_f2e") ji(r, T.language_group_file_to_enum(arg));
	else if (fn == "display_standard_f2e") ji(r, T.display_standard_file_to_enum(arg));
	else if (fn == "language_f2e") ji(r, T.language_file_to_enum(arg));
	else if (fn == "timecode_status_f2e") ji(r, T.timecode_status_file_to_enum(arg));
	else if (fn == "cumulative_status_f2e") ji(r, T.cumulative_status_file_to_enum(n));
	else if (fn == "justification_f2e") ji(r, T.justification_file_to_enum(n));
	else if (fn == "comment_f2e") ji(r, T.comment_file_to_enum(n));
	else if (fn == "language_e2f") js(r, T.language_enum_to_file(static_cast<sub::Language>(n)));
	else if (fn == "cumulative_status_e2f") ji(r, T.cumulative_status_enum_to_file(static_cast<sub::CumulativeStatus>(n)));
	else if (fn == "justification_e2f") ji(r, T.justification_enum_to_file(static_cast<sub::Justification>(n)));
	else if (fn == "comment_e2f") ji(r, T.comment_enum_to_file(static_cast<sub::Comment>(n)));
	else if (fn == "display_standard_e2d") js(r, T.display_standard_enum_to_description(static_cast<sub::DisplayStandard>(n)));
	else if (fn == "language_group_e2d") js(r, T.language_group_enum_to_description(static_cast<sub::LanguageGroup>(n)));
	else if (fn == "language_e2d") js(r, T.language_enum_to_description(static_cast<sub::Language>(n)));
	else if (fn == "timecode_status_e2d") js(r, T.timecode_status_enum_to_description(static_cast<sub::TimecodeStatus>(n)));
	else if (fn == "cumulative_status_e2d") js(r, T.cumulative_status_enum_to_description(static_cast<sub::CumulativeStatus>(n)));
	else if (fn == "justification_e2d") js(r, T.justification_enum_to_description(static_cast<sub::Justification>(n)));
	else if (fn == "comment_e2d") js(r, T.comment_enum_to_description(static_cast<sub::Comment>(n)));
	else if (fn == "language_d2e") { auto l = T.language_description_to_enum(arg); if (l) ji(r, *l); else r += "null"; }
	else if (fn == "rate2dfc") js(r, sub::stl_frame_rate_to_dfc(bits_float(arg)));
	else if (fn == "dfc2rate") jf(r, sub::stl_dfc_to_frame_rate(arg));
	else { fprintf(stderr, "driver: bad table %s\n", fn.c_str()); _exit(3); }
}

/* runs f(0), f(1) ... at the same time, each in a thread of its own */
template <class F> static void in_threads(size_t n, F f)
{
	std::atomic<size_t> waiting(0);
	vector<std::thread> ts;
	for (size_t i = 0; i < n; ++i) ts.emplace_back([&, i]() {
		++waiting;
		while (waiting.load(std::memory_order_relaxed) < n) sched_yield();
		f(i);
	});
	for (auto& x: ts) x.join();
}

/* An operation whose library part is separate from reading the request and making the answer */
struct Parted
{
	string op, fmt, src, data, name;
	WriteArgs a;
	vector<sub::Subtitle> subs;
	vector<sub::RawSubtitle> raws;
	vector<std::pair<string, std::wstring>> items;
	/* results */
	std::shared_ptr<sub::Reader> reader, second;
	vector<sub::Subtitle> col;
	vector<string> enc;
	vector<std::wstring> dec;
	string text;
	bool good;

	Parted(string const& o, Cur& c) : op(o), good(true)
	{
		if (op == "read" || op == "dump" || op == "pipe") { fmt = c.s(); src = c.s(); data = c.s(); }
		if (op == "open") { name = c.s(); data = c.s(); }
		if (op == "pipe" || op == "write") a = get_write_args(c);
		if (op == "write") subs = get_subs(c);
		if (op == "collect") { c.s(); raws = get_raws(c); }
		if (op == "iso") for (long long n = c.i(); n > 0; --n) {
			string const k = c.s(), d = c.s();
			std::wstring w;
			if (k == "e") { Fields f(d); for (auto const& x: f.f) w += wchar_t(Cur::parse(x)); }
			items.push_back({k == "d" ? "d" + d : "e", w});
		}
	}

	void clear() { reader.reset(); second.reset(); col.clear(); col.shrink_to_fit(); enc.clear(); enc.shrink_to_fit(); dec.clear(); dec.shrink_to_fit(); string().swap(text); good = true; }

	void run()
	{
		using namespace sub;
		clear();
		string path;
		if (op == "open") {
			path = g_scratch + "/" + name;
			if (name[0] != '-') { std::ofstream f(path.c_str(), std::ios::binary); f << data; }
		}
		struct R { string const& p; ~R() { if (!p.empty()) unlink(p.c_str()); } } remove{path};
		Counting counting;
		if (op == "read") reader = make_reader(fmt, src, data);
		else if (op == "open") reader = reader_factory(path);
		else if (op == "collect") col = collect<vector<Subtitle>>(raws);
		else if (op == "write") do_write(subs, a);
		else if (op == "iso") {
			for (auto const& i: items) {
				if (i.first[0] == 'd') dec.push_back(iso6937_to_utf16(i.first.substr(1))); else enc.push_back(utf16_to_iso6937(i.second));
			}
		} else if (op == "dump") {
			reader = make_reader(fmt, src, data);
			std::ostringstream s;
			dump(reader, s);
			good = s.good();
			text = s.str();
		} else if (op == "pipe") {
			reader = make_reader(fmt, src, data);
			col = collect<vector<Subtitle>>(reader->subtitles());
			do_write(col, a);
			FILE* f = fopen(a.path.c_str(), "rb");
			Closer c{f};
			second = std::make_shared<STLBinaryReader>(f);
		}
	}

	void answer(string& o)
	{
		o = "{";
		if (reader) { o += "\"reader\":"; jreader(o, *reader); o += ','; }
		if (second) { o += "\"second\":"; jreader(o, *second); o += ','; }
		o += "\"col\":"; jsubs(o, col);
		o += ",\"text\":"; js(o, text);
		for (auto const& i: enc) { o += ",\"e\":"; js(o, i); }
		for (auto const& i: dec) { string u; for (auto x: i) utf8_put(u, x); o += ",\"d\":"; js(o, u); }
		if (op == "write" || op == "pipe") { o += ",\"file\":"; js(o, slurp(a.path)); }
		o += '}';
	}

	/* runs it, failing as g_fail says; what comes of it: o (with the answer), s (the stream has failed), e (a standard exception), x (another one) */
	char attempt(string* answer_to, string* what = nullptr)
	{
		g_count = g_failed = 0;
		try { run(); }
		catch (std::exception& e) { if (what) *what = string(typeid(e).name()) + ": " + e.what(); clear(); return 'e'; }
		catch (...) { clear(); return 'x'; }
		bool const g = good;
		if (g && answer_to) answer(*answer_to);
		clear();
		return g ? 'o' : 's';
	}
};

static void exec(string const& op, Cur& c, string& o)
{
	using namespace sub;
	if (op == "read") {
		string const fmt = c.s(), src = c.s(), data = c.s();
		auto r = make_reader(fmt, src, data);
		jreader(o, *r);
	} else if (op == "factory") {
		string const path = c.s();
		auto r = reader_factory(path);
		if (r) jreader(o, *r); else o = "null";
	} else if (op == "open") {
		/* a file of the given name and contents (none if the name starts with -), opened by name */
		string const name = c.s(), data = c.s();
		string const path = g_scratch + "/" + name;
		if (name[0] != '-') { std::ofstream f(path.c_str(), std::ios::binary); f << data; }
		struct R { string const& p; ~R() { unlink(p.c_str()); } } remove{path};
		auto r = reader_factory(path);
		if (r) jreader(o, *r); else o = "null";
	} else if (op == "repeat") {
		/* the same operations over and over; allocated bytes and open descriptors after each time */
		long long const times = c.i();
		struct Op { string op; Cur c; };
		vector<Op> todo;
		for (long long n = c.i(); n > 0; --n) {
			Op x;
			x.op = c.s();
			for (long long k = c.i(); k > 0; --k) x.c.t.push_back(c.s());
			todo.push_back(x);
		}
		vector<long long> use;
		use.reserve(2 * times);
		string how;
		how.reserve(todo.size() * times);
		for (long long i = 0; i < times; ++i) {
			for (auto& x: todo) {
				x.c.n = 0;
				how += guarded(x.op, x.c)[2] == 'o' ? 'o' : 'e';
			}
			use.push_back(allocated());
			use.push_back(fd_count());
		}
		o = "[";
		js(o, how.substr(0, todo.size()));
		for (auto i: use) { o += ','; ji(o, i); }
		o += ']';
	} else if (op == "oom") {
		/* cold: nothing is done before the first failure; points: "o<n>" only, "r<n>" that one and the rest; n is thousandths of a per cent of the
		   allocations made unless cold.  Answers the number of allocations, and [point, outcome, same answer, allocations refused, growth] for each point,
		   and what the operation gives in the end */
		bool const cold = c.i();
		Fields points(c.s());
		string const inner = c.s();
		Parted p(inner, c);
		string expected, what, now;
		char how = 0;
		long long total = 0;
		if (!cold) {
			g_fail = -1;
			p.attempt(nullptr);
			how = p.attempt(&expected, &what);
			total = g_count;
		}
		struct Out { long long k; char how; bool same; long long failed, growth, fds; };
		vector<Out> out;
		out.reserve(points.f.size());
		for (auto const& x: points.f) {
			long long const v = Cur::parse(x.substr(1));
			g_rest = x[0] == 'r';
			Out y{cold ? v : v * total / 100000, 0, true, 0, 0, 0};
			g_fail = y.k;
			string got;
			y.how = p.attempt(&got);
			y.failed = g_failed;
			y.same = cold || y.how != 'o' || (how == 'o' && got == expected);
			if (!cold) {
				/* what it leaves each time it is done again */
				string().swap(got);
				long long least = 1LL << 60;
				int const fds = fd_count();
				for (int n = 0; n < 3; ++n) {
					long long const before = allocated();
					g_fail = y.k;
					p.attempt(nullptr);
					least = std::min(least, allocated() - before);
				}
				y.growth = least;
				y.fds = fd_count() - fds;
			}
			out.push_back(y);
		}
		g_fail = -1;
		char const last = p.attempt(&now, &what);
		o = "{\"total\":"; ji(o, total);
		o += ",\"how\":"; js(o, string(1, cold ? last : how)); o += ",\"last\":"; js(o, string(1, last));
		o += ",\"same\":"; jbool(o, cold || now == expected);
		o += ",\"now\":"; js(o, now);
		o += ",\"points\":[";
		for (size_t i = 0; i < out.size(); ++i) {
			if (i) o += ',';
			o += '['; ji(o, out[i].k); o += ','; js(o, string(1, out[i].how)); o += ','; jbool(o, out[i].same); o += ','; ji(o, out[i].failed); o += ','; ji(o, out[i].growth);
			o += ','; ji(o, out[i].fds); o += ']';
		}
		o += "]}";
	} else if (op == "fds") {
		ji(o, fd_count());
	} else if (op == "collect") {
		string const kind = c.s();
		auto raws = get_raws(c);
		if (kind == "list") jsubs(o, collect<std::list<Subtitle>>(raws)); else jsubs(o, collect<vector<Subtitle>>(raws));
	} else if (op == "write") {
		auto a = get_write_args(c);
		auto subs = get_subs(c);
		do_write(subs, a);
		js(o, slurp(a.path));
	} else if (op == "writelim") {
		/* as write, but the file may not grow beyond a limit; the file is not read back */
		rlim_t const lim = c.i();
		auto a = get_write_args(c);
		auto subs = get_subs(c);
		signal(SIGXFSZ, SIG_IGN);
		struct rlimit old, now;
		getrlimit(RLIMIT_FSIZE, &old);
		now = old; now.rlim_cur = lim;
		setrlimit(RLIMIT_FSIZE, &now);
		struct R { struct rlimit* o; ~R() { setrlimit(RLIMIT_FSIZE, o); } } restore{&old};
		do_write(subs, a);
		o = "true";
	} else if (op == "writeback") {
		/* write, read back, and collect what was read */
		auto a = get_write_args(c);
		auto subs = get_subs(c);
		do_write(subs, a);
		string const bytes = slurp(a.path);
		std::istringstream s(bytes);
		STLBinaryReader r(s);
		o = "{\"bytes\":"; js(o, bytes); o += ",\"read\":"; jreader(o, r);
		auto col = collect<vector<Subtitle>>(r.subtitles());
		o += ",\"collected\":"; jsubs(o, col);
		if (!col.empty()) {
			do_write(col, a);
			string const again = slurp(a.path);
			std::istringstream s2(again);
			STLBinaryReader r2(s2);
			o += ",\"again\":"; jreader(o, r2);
		}
		o += '}';
	} else if (op == "pipe") {
		string const fmt = c.s(), src = c.s(), data = c.s();
		auto a = get_write_args(c);
		auto r = make_reader(fmt, src, data);
		auto col = collect<vector<Subtitle>>(r->subtitles());
		do_write(col, a);
		string const bytes = slurp(a.path);
		std::istringstream s(bytes);
		STLBinaryReader b(s);
		o = "{\"bytes\":"; js(o, bytes); o += ",\"first\":"; jreader(o, *r); o += ",\"mid\":"; jsubs(o, col);
		o += ",\"read\":"; jreader(o, b); o += ",\"collected\":"; jsubs(o, collect<vector<Subtitle>>(b.subtitles())); o += '}';
	} else if (op == "dump") {
		string const fmt = c.s(), src = c.s(), data = c.s();
		auto r = make_reader(fmt, src, data);
		std::ostringstream s;
		s.imbue(std::locale::classic());
		dump(r, s);
		js(o, s.str());
	} else if (op == "iso") {
		long long n = c.i();
		o = "[";
		for (long long i = 0; i < n; ++i) {
			string const k = c.s(), d = c.s();
			if (i) o += ',';
			jtry(o, [&](string& r) {
				if (k == "d") {
					auto w = iso6937_to_utf16(d);
					string u;
					for (auto x: w) utf8_put(u, x);
					js(r, u);
				} else {
					/* d: space separated code points */
					std::wstring w;
					Fields f(d);
					for (auto const& x: f.f) w += wchar_t(Cur::parse(x));
					js(r, utf16_to_iso6937(w));
				}
			});
		}
		o += ']';
	} else if (op == "times") {
		/* times, then rates for frames_at; answers every observer and the comparison matrices */
		Fields ts(c.s()), rs(c.s());
		vector<Time> t;
		for (auto const& x: ts.f) t.push_back(Fields::time_of(x));
		o = "{\"t\":[";
		for (size_t i = 0; i < t.size(); ++i) {
			if (i) o += ',';
			o += '['; ji(o, t[i].hours()); o += ','; ji(o, t[i].minutes()); o += ','; ji(o, t[i].seconds()); o += ','; js(o, time_string(t[i])); o += ',';
			jtry(o, [&](string& r) { ji(r, t[i].milliseconds()); }); o += ',';
			jtry(o, [&](string& r) { jd(r, t[i].all_as_seconds(), 17); }); o += ",[";
			for (size_t j = 0; j < rs.f.size(); ++j) {
				auto p = rs.f[j].find('/');
				Rational const q(Cur::parse(rs.f[j].substr(0, p)), Cur::parse(rs.f[j].substr(p + 1)));
				if (j) o += ',';
				jtry(o, [&](string& r) { ji(r, t[i].frames_at(q)); });
			}
			o += "]]";
		}
		o += "],\"c\":[";
		bool first = true;
		for (auto const& a: t) for (auto const& b: t) {
			if (!first) o += ',';
			first = false;
			o += '[';
			jtry(o, [&](string& r) { jbool(r, a < b); }); o += ',';
			jtry(o, [&](string& r) { jbool(r, a == b); }); o += ',';
			jtry(o, [&](string& r) { jbool(r, a > b); }); o += ',';
			jtry(o, [&](string& r) { jbool(r, a != b); });
			o += ']';
		}
		o += "]}";
	} else if (op == "timearith") {
		/* start time, then steps: "a <time>" or "s <float bits>"; the value after every step */
		Fields f(c.s());
		Time t = f.t();
		o = "[";
		bool first = true;
		while (f.n < f.f.size()) {
			string const k = f.s();
			if (!first) o += ',';
			first = false;
			jtry(o, [&](string& r) {
				if (k == "a") t.add(f.t()); else t.scale(f.fl());
				jtime(r, t);
			});
		}
		o += ']';
	} else if (op == "fontsize") {
		/* prop|-, points|-, height ; prop2|-, points2|- */
		Fields f(c.s());
		auto get = [&](FontSize& s) { auto p = f.ofl(); auto q = f.oi(); if (p) s.set_proportional(*p); if (q) s.set_points(*q); };
		FontSize a, b;
		get(a);
		int const h = f.i();
		get(b);
		o = "["; jbool(o, a.specified()); o += ',';
		if (a.specified()) { jf(o, a.proportional(h)); o += ','; ji(o, a.points(h)); } else o += "null,null";
		o += ','; jopt(o, a.proportional(), jf); o += ','; jopt(o, a.points(), [](string& o, int x){ji(o,x);});
		o += ','; jbool(o, a == b); o += ','; jbool(o, b == a); o += ','; jbool(o, a == a);
		if (a.specified()) {
			/* convert and convert back */
			if (a.points()) { o += ','; ji(o, FontSize::from_proportional(FontSize::from_points(*a.points()).proportional(h)).points(h)); }
			else { o += ','; jf(o, FontSize::from_points(FontSize::from_proportional(*a.proportional()).points(h)).proportional(h)); }
		}
		o += ']';
	} else if (op == "vpos") {
		vector<VerticalPosition> v;
		long long n = c.i();
		while (n-- > 0) { Fields f(c.s()); v.push_back(f.vp()); }
		o = "{\"f\":[";
		for (size_t i = 0; i < v.size(); ++i) { if (i) o += ','; jf(o, v[i].fraction_from_screen_top()); }
		o += "],\"c\":[";
		bool first = true;
		for (auto const& a: v) for (auto const& b: v) { if (!first) o += ','; first = false; o += '['; jbool(o, a < b); o += ','; jbool(o, a == b); o += ']'; }
		o += "]}";
	} else if (op == "hpos") {
		Fields f(c.s()), g(c.s());
		auto a = f.hp(), b = g.hp();
		o = "["; jbool(o, a == b); o += ','; jbool(o, b == a); o += ','; jbool(o, a == a); o += ']';
	} else if (op == "colour") {
		string const k = c.s(), s = c.s();
		jtry(o, [&](string& r) { jcol(r, k == "rgb" ? Colour::from_rgb_hex(s) : Colour::from_rgba_hex(s)); });
	} else if (op == "names") {
		string const k = c.s(), s = c.s();
		jtry(o, [&](string& r) {
			if (k == "vref") ji(r, string_to_vertical_reference(s));
			else if (k == "space") jbool(r, empty_or_white_space(s));
			else { auto e = string_to_effect(s); if (e) ji(r, *e); else r += "null"; }
		});
	} else if (op == "tables") {
		long long n = c.i();
		o = "[";
		for (long long i = 0; i < n; ++i) {
			string const fn = c.s(), arg = c.s();
			if (i) o += ',';
			jtry(o, [&](string& r) { table_call(fn, arg, r); });
		}
		o += ']';
	} else if (op == "equal") {
		/* every pair of the subtitles, of their first lines and of those lines' first blocks */
		auto v = get_subs(c);
		o = "[";
		bool first = true;
		for (auto const& a: v) for (auto const& b: v) {
			if (!first) o += ',';
			first = false;
			o += '['; jbool(o, a == b); o += ',';
			jbool(o, a.lines.front() == b.lines.front()); o += ',';
			jbool(o, a.lines.front().blocks.front() == b.lines.front().blocks.front()); o += ',';
			jbool(o, a.lines.front().blocks.front().colour == b.lines.front().blocks.front().colour); o += ']';
		}
		o += ']';
	} else if (op == "ssaline") {
		auto base = get_raws(c);
		Fields f(c.s());
		int const rx = f.i(), ry = f.i();
		float const r = f.fl(), g = f.fl(), b = f.fl();
		int const left = f.i(), right = f.i();
		string const line = c.s();
		auto v = SSAReader::parse_line(base.at(0), line, SSAReader::Context(rx, ry, Colour(r, g, b), left, right));
		jraws(o, v);
	} else if (op == "convert_time") {
		string const t = c.s(), sep = c.s();
		string expected;
		auto r = SubripReader::convert_time(t, sep, &expected);
		o = "["; jopt(o, r, jtime); o += ','; js(o, expected); o += ',';
		jopt(o, SubripReader::convert_time(t, sep), jtime); o += ']';
	} else if (op == "threads") {
		/* each thread has operations of its own, which have nothing to do with those of the others */
		struct Op { string op; Cur c; };
		vector<vector<Op>> todo(c.i());
		vector<long long> delays;
		for (auto& t: todo) {
			delays.push_back(c.i());
			for (long long n = c.i(); n > 0; --n) {
				Op x;
				x.op = c.s();
				for (long long k = c.i(); k > 0; --k) x.c.t.push_back(c.s());
				t.push_back(x);
			}
		}
		vector<vector<string>> res(todo.size());
		string const scratch = g_scratch;
		in_threads(todo.size(), [&](size_t i) {
			g_scratch = scratch + "/t" + std::to_string(i);
			mkdir(g_scratch.c_str(), 0700);
			for (volatile long long k = delays[i]; k > 0; k = k - 1) {}
			for (auto& x: todo[i]) res[i].push_back(guarded(x.op, x.c));
		});
		o = "[";
		for (size_t i = 0; i < res.size(); ++i) {
			o += i ? ",[" : "[";
			for (size_t j = 0; j < res[i].size(); ++j) { if (j) o += ','; o += res[i][j]; }
			o += ']';
		}
		o += ']';
	} else if (op == "shared") {
		/* each thread uses the same reader and the same list of subtitles, without changing them */
		string const fmt = c.s(), src = c.s(), data = c.s();
		long long const n = c.i();
		vector<WriteArgs> a;
		vector<string> what;
		for (long long i = 0; i < n; ++i) { what.push_back(c.s()); a.push_back(get_write_args(c)); }
		auto const r = make_reader(fmt, src, data);
		auto const col = collect<vector<Subtitle>>(r->subtitles());
		vector<string> res(n);
		in_threads(n, [&](size_t i) {
			string& q = res[i];
			for (char k: what[i]) {
				if (!q.empty()) q += ',';
				string x;
				jtry(x, [&](string& y) {
					if (k == 'r') jreader(y, *r);
					else if (k == 'c') jsubs(y, collect<vector<Subtitle>>(r->subtitles()));
					else if (k == 'w') { do_write(col, a[i]); js(y, slurp(a[i].path)); }
					else if (k == 'd') { std::ostringstream s; s.imbue(std::locale::classic()); dump(r, s); js(y, s.str()); }
					else if (k == 'e') { auto const other = col; bool same = true; for (size_t j = 0; j < col.size(); ++j) same = same && col[j] == other[j]; jbool(y, same); }
					else jsubs(y, col);
				});
				q += x;
			}
		});
		o = "[";
		for (long long i = 0; i < n; ++i) { o += i ? ",[" : "["; o += res[i]; o += ']'; }
		o += ']';
	} else if (op == "locale") {
		/* mode: both, c (setlocale alone), c++ (std::locale::global alone) */
		string const name = c.s(), mode = c.s();
		std::locale::global(mode == "c" || name == "C" ? std::locale::classic() : std::locale(name.c_str()));
		char const* ok = setlocale(LC_ALL, mode == "c++" ? "C" : name.c_str());
		o = "["; js(o, ok ? ok : ""); o += ','; js(o, std::locale().name()); o += ']';
	} else {
		fprintf(stderr, "driver: bad op %s\n", op.c_str());
		_exit(3);
	}
}

static bool read_all(int fd, char* p, size_t n)
{
	while (n) { ssize_t r = read(fd, p, n); if (r <= 0) return false; p += r; n -= r; }
	return true;
}

static void write_all(int fd, char const* p, size_t n)
{
	while (n) { ssize_t r = write(fd, p, n); if (r <= 0) _exit(4); p += r; n -= r; }
}

int main(int argc, char** argv)
{
	g_scratch = argc > 1 ? argv[1] : ".";
	/* libsub prints warnings on stdout; keep them away from the protocol */
	int const out = dup(1);
	int const in = dup(0);
	int const nul = open("/dev/null", O_RDWR);
	dup2(nul, 1); dup2(nul, 0); close(nul);
	while (true) {
		uint32_t n;
		if (!read_all(in, reinterpret_cast<char*>(&n), 4)) _exit(0);
		string buf(n, '\0');
		if (!read_all(in, &buf[0], n)) _exit(0);
		Cur c;
		size_t p = 0;
		while (p + 4 <= n) { uint32_t l; memcpy(&l, &buf[p], 4); c.t.push_back(buf.substr(p + 4, l)); p += 4 + l; }
		string const flags = c.s(), op = c.s();
		if (flags == "f") {
			pid_t const pid = fork();
			if (pid == 0) {
				string const r = guarded(op, c);
				uint32_t const l = r.size();
				write_all(out, reinterpret_cast<char const*>(&l), 4);
				write_all(out, r.data(), l);
				_exit(0);
			}
			int status = 0;
			waitpid(pid, &status, 0);
			if (!WIFEXITED(status) || WEXITSTATUS(status)) _exit(WIFEXITED(status) ? WEXITSTATUS(status) : 128 + WTERMSIG(status));
			continue;
		}
		string const r = guarded(op, c);
		uint32_t const l = r.size();
		write_all(out, reinterpret_cast<char const*>(&l), 4);
		write_all(out, r.data(), l);
	}
}
