#include "vt.h"
#include "FUtils/FUErrorLog.h"
#include <unistd.h>
#include <cstring>
#include <memory>
using namespace vt;

namespace {
static const char* lines(const char* s, int& n) { n = 0; if (s == NULL || *s == 0) return s; n = 1; for (const char* p = s; *p; ++p) if (*p == '\n') ++n; return s; }

struct Events : public Model
{
	FUEvent<int, unsigned int>* ev = NULL;
	int nobj, maxlen, nsim, nlog;
	std::vector<char*> keys;                  // the objects
	std::vector<FUErrorSimpleHandler*> sims;
	std::vector<FUErrorLog*> logs;
	int depth = 0;
	J calls;

	void reset(const Args& a) override
	{
		nobj = a.i("NObj"); maxlen = a.i("MaxLen"); nsim = a.i("NSimple"); nlog = a.i("NLog");
		ev = new FUEvent<int, unsigned int>();
		for (int i = 0; i < nobj; ++i) keys.push_back(new char);
		sims.assign(nsim, (FUErrorSimpleHandler*) NULL); logs.assign(nlog, (FUErrorLog*) NULL);
		FUError::SetFatalityLevel(FUError::ERROR_LEVEL);
	}
	static FUError::Level lev(int l) { return l == 1 ? FUError::DEBUG_LEVEL : l == 2 ? FUError::WARNING_LEVEL : FUError::ERROR_LEVEL; }
	void add(int l, int o, int k)
	{
		std::shared_ptr<int> kind(new int(k));
		if (l == 0) ev->InsertHandler(keys[o - 1], [this, o, kind](int code, unsigned int arg) { called(0, o, kind, 0, code, arg); });
		else FUError::AddErrorCallback(lev(l), keys[o - 1], [this, l, o, kind](FUError::Level v, uint32 code, uint32 arg) { called(l, o, kind, v, code, arg); });
	}
	void remove(int l, int o)
	{
		if (l == 0) ev->ReleaseHandler(keys[o - 1]); else FUError::RemoveErrorCallback(lev(l), keys[o - 1]);
	}
	// By value: the closure may be destroyed while it runs.
	void called(int l, int o, std::shared_ptr<int> kind, int v, unsigned code, unsigned arg)
	{
		int k = *kind;
		Events* self = this;
		J c = J::arr(); c.add(o).add(k).add(l);
		bool ok = (l == 0 || v == (int) lev(l)) && code == (unsigned) (40 + l) && arg == (unsigned) (7 + l);
		if (!ok) c.add(-1);
		self->calls.add(c);
		if (k == 1) self->remove(l, o);
		else if (k == 2) { *kind = 0; self->add(l, o, 0); }
		else if (k == 3 && l > 1 && self->depth == 0) { ++self->depth; FUError::Error(FUError::DEBUG_LEVEL, 41, 8); --self->depth; }
	}
	J op(const Args& a) override
	{
		const std::string& op = a.op;
		if (op == "Add") { add(a.i("l"), a.i("o"), a.i("k")); return 0; }
		if (op == "Remove") { remove(a.i("l"), a.i("o")); return 0; }
		if (op == "SetFatal") { FUError::SetFatalityLevel(lev(a.i("l"))); return 0; }
		if (op == "Raise")
		{
			int l = a.i("l");
			calls = J::arr();
			bool fatal = false;
			if (l == 0) (*ev)(40, 7u);
			else fatal = FUError::Error(lev(l), 40 + l, 7 + l);
			J r = J::obj(); r.set("calls", calls).set("fatal", fatal);
			return r;
		}
		int i = a.i("i") - 1;
		if (op == "SimUp") { sims[i] = new FUErrorSimpleHandler(lev(a.i("l"))); return 0; }
		if (op == "SimDown") { delete sims[i]; sims[i] = NULL; return 0; }
		if (op == "LogUp") { logs[i] = new FUErrorLog((scratch() + "/log" + std::to_string(i)).c_str(), lev(a.i("l"))); return 0; }
		if (op == "LogDown") { delete logs[i]; logs[i] = NULL; return 0; }
		if (op == "LogQuery") { uint32 d, w, e; logs[i]->QueryNewMessages(d, w, e); return J::list(std::vector<int>{(int) d, (int) w, (int) e}); }
		bad(op);
	}
	J obs() override
	{
		J s = J::arr();
		for (auto* h : sims) { int n = 0; if (h) lines(h->GetErrorString(), n); J x = J::arr(); x.add(n).add(h ? !h->IsSuccessful() : false); s.add(x); }
		J j = J::obj(); j.set("n", ev->GetHandlerCount()).set("fatal", (int) FUError::GetFatalityLevel() + 1).set("sim", s);
		return j;
	}
	J finish() override
	{
		for (auto*& h : sims) { delete h; h = NULL; }
		for (auto*& h : logs) { delete h; h = NULL; }
		for (int l = 1; l <= 3; ++l) for (int o = 1; o <= nobj; ++o) for (int n = 0; n <= maxlen + 4; ++n) FUError::RemoveErrorCallback(lev(l), keys[o - 1]);
		calls = J::arr();
		for (int l = 1; l <= 3; ++l) FUError::Error(lev(l), 1, 1);
		delete ev; ev = NULL;
		for (auto* k : keys) delete k;
		FUError::SetFatalityLevel(FUError::ERROR_LEVEL);
		if (!calls.a.empty()) return "handlers left";
		return true;
	}
};
}
VT_MODEL("events", Events)
