/* libFuzzer target: the first two bytes choose the reader, the way the input is supplied and the parameters
   of the writer; the rest is the file. Anything but a normal return or a std::exception is a failure. */
#include "subrip_reader.h"
#include "ssa_reader.h"
#include "web_vtt_reader.h"
#include "stl_text_reader.h"
#include "stl_binary_reader.h"
#include "stl_binary_writer.h"
#include "collect.h"
#include "util.h"
#include "subtitle.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <list>
#include <memory>
#include <sstream>
#include <string>
#include <unistd.h>
#include <unordered_map>
#include <vector>

using namespace sub;
using std::string;
using std::vector;

static unsigned long long g_runs, g_accepted, g_rejected, g_writes, g_written, g_format[5], g_format_ok[5];
static std::unordered_map<unsigned long long, unsigned> g_seen;
static bool g_dumped;
static vector<string> g_samples;

static void report()
{
	if (g_dumped) return;
	g_dumped = true;
	char const* p = getenv("FUZZ_STATS");
	if (!p) return;
	FILE* f = fopen(p, "wb");
	if (!f) return;
	fprintf(f, "{\"runs\":%llu,\"accepted\":%llu,\"rejected\":%llu,\"written\":%llu,\"refused\":%llu,\"distinct\":%zu,\"formats\":[", g_runs, g_accepted, g_rejected, g_written, g_writes - g_written, g_seen.size());
	for (int i = 0; i < 5; ++i) fprintf(f, "%s%llu,%llu", i ? "," : "", g_format[i], g_format_ok[i]);
	fprintf(f, "],\"samples\":[");
	for (size_t i = 0; i < g_samples.size(); ++i) {
		fprintf(f, "%s\"", i ? "," : "");
		for (unsigned char c: g_samples[i]) fprintf(f, "%02x", c);
		fprintf(f, "\"");
	}
	fprintf(f, "]}\n");
	fclose(f);
	string const h = string(p) + ".hashes";
	f = fopen(h.c_str(), "wb");
	if (!f) return;
	for (auto const& i: g_seen) fwrite(&i.first, 8, 1, f);
	fclose(f);
}

extern "C" int LLVMFuzzerInitialize(int*, char***)
{
	atexit(report);
	return 0;
}

static std::shared_ptr<Reader> read(int fmt, int src, string const& data)
{
	if (fmt == 3) {
		std::istringstream s(data);
		return std::make_shared<STLTextReader>(s);
	}
	if (fmt == 4 && src != 1) {
		std::istringstream s(data);
		return std::make_shared<STLBinaryReader>(s);
	}
	if (src == 1) {
		struct F { FILE* f; F(string const& d) : f(tmpfile()) { if (!f || fwrite(d.data(), 1, d.size(), f) != d.size()) _exit(99); rewind(f); } ~F() { fclose(f); } } f(data);
		switch (fmt) {
		case 0: return std::make_shared<SubripReader>(f.f);
		case 1: return std::make_shared<SSAReader>(f.f);
		case 2: return std::make_shared<WebVTTReader>(f.f);
		default: return std::make_shared<STLBinaryReader>(f.f);
		}
	}
	switch (fmt) {
	case 0: return std::make_shared<SubripReader>(data);
	case 1: return std::make_shared<SSAReader>(data);
	default: return std::make_shared<WebVTTReader>(data);
	}
}

extern "C" int LLVMFuzzerTestOneInput(uint8_t const* p, size_t n)
{
	if (n < 2) return 0;
	int const fmt = p[0] % 5;
	int const src = p[1] % 8 == 7;
	int const par = p[1] / 8;
	string const data(reinterpret_cast<char const*>(p) + 2, n - 2);
	++g_runs;
	++g_format[fmt];
	std::shared_ptr<Reader> r;
	try {
		r = read(fmt, src, data);
	} catch (std::exception& e) {
		string const w = e.what();
		(void) w;
		++g_rejected;
		return 0;
	}
	++g_accepted;
	try {
		auto const raws = r->subtitles();
		if (!raws.empty()) {
			++g_format_ok[fmt];
			unsigned long long h = 1469598103934665603ull;
			for (size_t i = 0; i < n; ++i) { h ^= p[i]; h *= 1099511628211ull; }
			if (g_seen.size() < 4000000) {
				if (g_seen.insert({h, 1}).second && g_samples.size() < 3 && g_seen.size() % 97 == 1 && n < 2000) g_samples.push_back(string(reinterpret_cast<char const*>(p), n));
			}
		}
		r->metadata();
		std::ostringstream s;
		dump(r, s);
		auto const l = collect<std::list<Subtitle>>(raws);
		auto const v = collect<vector<Subtitle>>(raws);
		if (v.empty()) return 0;
		++g_writes;
		static float const fps[] = {24, 25, 30, 23.976f, 29.97f, 50, 60, 1};
		string const t = (par & 8) ? data.substr(0, 40) : string("A title");
		write_stl_binary(v, fps[par & 7], static_cast<Language>(par * 4 % 0x60), t, "episode", t, "", t, "contact", "200229", "991231", par, "GBR", t, "", "x", "written.stl");
		++g_written;
		std::ifstream f("written.stl", std::ios::binary);
		STLBinaryReader b(f);
		collect<vector<Subtitle>>(b.subtitles());
	} catch (std::exception& e) {
		string const w = e.what();
		(void) w;
	}
	return 0;
}
