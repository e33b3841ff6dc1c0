// Conformance driver: executes the operations of the TLA+ specifications on the real library
// and prints, after each one, its result and the projected abstract state.
#pragma once
#include "FCollada.h"
#include <map>
#include <string>
#include <vector>
#include <functional>

namespace vt {

// A small JSON value.
struct J {
	enum K { N, I, S, B, A, O } k = N;
	long long i = 0; std::string s; bool b = false;
	std::vector<J> a; std::vector<std::pair<std::string, J>> o;
	J() {}
	J(int v) : k(I), i(v) {}
	J(long v) : k(I), i(v) {}
	J(long long v) : k(I), i(v) {}
	J(unsigned v) : k(I), i(v) {}
	J(unsigned long v) : k(I), i((long long) v) {}
	J(bool v) : k(B), b(v) {}
	J(const char* v) : k(S), s(v) {}
	J(const std::string& v) : k(S), s(v) {}
	static J arr() { J j; j.k = A; return j; }
	static J obj() { J j; j.k = O; return j; }
	template <class T> static J list(const std::vector<T>& v) { J j = arr(); for (const auto& x : v) j.a.push_back(J(x)); return j; }
	J& add(J v) { k = A; a.push_back(std::move(v)); return *this; }
	J& set(const std::string& key, J v) { k = O; o.emplace_back(key, std::move(v)); return *this; }
	void write(std::string& out) const;
};

struct Args {
	std::string op;
	std::map<std::string, std::string> m;
	bool has(const char* k) const { return m.count(k) != 0; }
	int i(const char* k) const;
	bool b(const char* k) const { return s(k) == "true" || s(k) == "1"; }
	const std::string& s(const char* k) const;
	std::vector<int> l(const char* k) const;                 // list of integers
	std::vector<std::vector<int>> ll(const char* k) const;   // list of lists of integers
	std::vector<std::string> ls(const char* k) const;        // list of strings
};

struct Model {
	virtual ~Model() {}
	virtual void reset(const Args&) {}     // start of a history
	virtual J op(const Args& a) = 0;       // one operation; returns the result
	virtual J obs() = 0;                   // the projected abstract state
	virtual J finish() { return J(true); } // end of a history
};

typedef std::function<Model*()> Maker;
struct Reg { Reg(const char* name, Maker m); };
#define VT_MODEL(name, cls) static vt::Reg vt_reg_##cls(name, [] { return (vt::Model*) new cls(); });

extern int asserts;            // assertion failures raised by the library in the current operation
[[noreturn]] void bad(const std::string& what); // the script is malformed: a defect of the check itself
std::string scratch();         // scratch directory of this process

// Rounds a number that must be an integer multiple of 1/scale; returns sentinel 777777 otherwise.
inline int q(double v, int scale = 1) { double x = v * scale; if (!(x > -2e9 && x < 2e9)) return 888888; double r = (x < 0) ? (long long) (x - 0.5) : (long long) (x + 0.5); double d = x - r; if (d < 0) d = -d; return d < 1e-3 * (1 + (r < 0 ? -r : r) * 0.01) ? (int) r : 777777; }
}
