#include "vt.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <signal.h>
#include <iostream>

namespace vt {

static std::map<std::string, Maker>& makers() { static std::map<std::string, Maker> m; return m; }
Reg::Reg(const char* name, Maker m) { makers()[name] = m; }
int asserts = 0;
static std::string lastAssert;
static std::string scratchDir;
std::string scratch() { return scratchDir; }

void bad(const std::string& what)
{
	fflush(stdout);
	fprintf(stderr, "VT-SCRIPT-ERROR: %s\n", what.c_str());
	fflush(stderr);
	_exit(99);
}

void J::write(std::string& out) const
{
	switch (k)
	{
	case N: out += "null"; break;
	case I: out += std::to_string(i); break;
	case B: out += b ? "true" : "false"; break;
	case S:
		out += '"';
		for (unsigned char c : s)
		{
			if (c == '"' || c == '\\') { out += '\\'; out += (char) c; }
			else if (c < 32 || c >= 127) { char t[8]; snprintf(t, 8, "\\u%04x", c); out += t; }
			else out += (char) c;
		}
		out += '"';
		break;
	case A: { out += '['; bool f = true; for (auto& x : a) { if (!f) out += ','; f = false; x.write(out); } out += ']'; break; }
	case O: { out += '{'; bool f = true; for (auto& x : o) { if (!f) out += ','; f = false; out += '"'; out += x.first; out += "\":"; x.second.write(out); } out += '}'; break; }
	}
}

const std::string& Args::s(const char* k) const
{
	auto it = m.find(k);
	if (it == m.end()) bad("missing argument " + std::string(k) + " of " + op);
	return it->second;
}
int Args::i(const char* k) const { return atoi(s(k).c_str()); }
static std::vector<std::string> split(const std::string& v, char sep)
{
	std::vector<std::string> r;
	if (v.empty()) return r;
	size_t p = 0;
	for (;;) { size_t e = v.find(sep, p); if (e == std::string::npos) { r.push_back(v.substr(p)); break; } r.push_back(v.substr(p, e - p)); p = e + 1; }
	return r;
}
std::vector<int> Args::l(const char* k) const { std::vector<int> r; for (auto& x : split(s(k), ',')) r.push_back(atoi(x.c_str())); return r; }
std::vector<std::vector<int>> Args::ll(const char* k) const
{
	// "|" starts each element
	std::vector<std::vector<int>> r;
	auto parts = split(s(k), '|');
	for (size_t n = 1; n < parts.size(); ++n) { std::vector<int> v; for (auto& x : split(parts[n], ',')) v.push_back(atoi(x.c_str())); r.push_back(v); }
	return r;
}
std::vector<std::string> Args::ls(const char* k) const
{
	std::vector<std::string> r; auto parts = split(s(k), '\x01');
	for (size_t n = 1; n < parts.size(); ++n) r.push_back(parts[n]);
	return r;
}

static std::string unescape(const std::string& v)
{
	std::string r;
	for (size_t n = 0; n < v.size(); ++n)
	{
		if (v[n] == '%' && n + 2 < v.size()) { r += (char) strtol(v.substr(n + 1, 2).c_str(), NULL, 16); n += 2; }
		else r += v[n];
	}
	return r;
}

static Args parse(const std::string& line)
{
	Args a;
	auto t = split(line, ' ');
	a.op = t[0];
	for (size_t n = 1; n < t.size(); ++n)
	{
		size_t e = t[n].find('=');
		if (e == std::string::npos) bad("bad token in " + line);
		a.m[t[n].substr(0, e)] = unescape(t[n].substr(e + 1));
	}
	return a;
}
}

using namespace vt;

static char alarmText[64] = "VT-HANG\n";
static void onAlarm(int) { ssize_t n = write(2, alarmText, strlen(alarmText)); (void) n; _exit(98); }

// usage: fcdrv MODEL SCRIPT SCRATCHDIR LIMIT
int main(int argc, char** argv)
{
	if (argc < 5) bad("usage");
	auto it = makers().find(argv[1]);
	if (it == makers().end()) bad("no such model");
	scratchDir = argv[3];
	int limit = atoi(argv[4]);
	struct R { operator const char*() const { return NULL; } };
	FUAssertion::FUAssertCallback cb = [](auto) -> R { ++asserts; if (getenv("VT_SHOW") != NULL) { fprintf(stderr, "assertion\n"); __builtin_trap(); } return R(); };
	FUAssertion::SetAssertionFailedCallback(&cb);
	signal(SIGALRM, onAlarm);
	FILE* f = fopen(argv[2], "r");
	if (!f) bad("no script");
	std::string out;
	char* buf = NULL; size_t cap = 0; ssize_t len;
	Model* m = NULL;
	auto flush = [&] { if (!out.empty()) { fwrite(out.data(), 1, out.size(), stdout); out.clear(); } };
	auto emit = [&](const J& r, const J& o) {
		out += "{\"r\":"; r.write(out); out += ",\"o\":"; o.write(out);
		if (asserts) out += ",\"x\":" + std::to_string(asserts);
		out += "}\n";
		flush(); fflush(stdout);
	};
	while ((len = getline(&buf, &cap, f)) > 0)
	{
		while (len > 0 && (buf[len - 1] == '\n' || buf[len - 1] == '\r')) buf[--len] = 0;
		if (len == 0) continue;
		std::string line(buf, len);
		Args a = parse(line);
		asserts = 0;
		if (a.op == "@begin")
		{
			alarm(limit);
			m = it->second();
			m->reset(a);
			J o = m->obs();
			emit(J("init"), o);
		}
		else if (a.op == "@end")
		{
			J r = m->finish();
			delete m; m = NULL;
			emit(r, J("end"));
			alarm(0);
		}
		else
		{
			J r = m->op(a);
			J o = m->obs();
			emit(r, o);
		}
	}
	flush(); fflush(stdout);
	_exit(0);
}
