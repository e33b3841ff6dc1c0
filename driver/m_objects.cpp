#include "vt.h"
using namespace vt;

namespace {
struct Obj;
struct State { std::vector<Obj*> live; std::vector<int> destroyed; };
State* S = NULL;

struct Obj : public FUTrackable
{
	int id;
	FUObjectContainer<Obj> kids;
	FUObjectRef<Obj> held;
	Obj(int _id) : id(_id) {}
	virtual ~Obj() { if (S != NULL) { S->live[id] = NULL; S->destroyed[id]++; } }
};

struct Objects : public Model
{
	State state;
	int nobj, ncont, nref, nptr, nlist, nhold;
	FUObjectContainer<Obj>* root = NULL;
	std::vector<FUObjectRef<Obj>*> refs;
	std::vector<FUTrackedPtr<Obj>*> ptrs;
	std::vector<FUTrackedList<Obj>*> lists;
	std::vector<int> created;

	void reset(const Args& a) override
	{
		nobj = a.i("NObj"); ncont = a.i("NCont"); nref = a.i("NRef"); nptr = a.i("NPtr"); nlist = a.i("NList"); nhold = a.i("NHold");
		S = &state;
		state.live.assign(nobj + 1, NULL); state.destroyed.assign(nobj + 1, 0); created.assign(nobj + 1, 0);
		root = new FUObjectContainer<Obj>();
		for (int i = 0; i < nref; ++i) refs.push_back(new FUObjectRef<Obj>());
		for (int i = 0; i < nptr; ++i) ptrs.push_back(new FUTrackedPtr<Obj>());
		for (int i = 0; i < nlist; ++i) lists.push_back(new FUTrackedList<Obj>());
	}
	FUObjectContainer<Obj>& cont(int c) { if (c == 0) return *root; if (!state.live[c]) bad("dead container"); return state.live[c]->kids; }
	FUObjectRef<Obj>& ref(int k) { if (k <= nref) return *refs[k - 1]; if (!state.live[k - nref]) bad("dead ref"); return state.live[k - nref]->held; }
	Obj* obj(int o) { if (o == 0) return NULL; if (!state.live[o]) bad("dead object"); return state.live[o]; }
	int idOf(const Obj* o)
	{
		if (o == NULL) return 0;
		for (int i = 1; i <= nobj; ++i) if (state.live[i] == o) return i;
		return -1; // a dangling pointer
	}
	J op(const Args& a) override
	{
		const std::string& op = a.op;
		if (op == "New") { int o = a.i("o"); if (state.live[o]) bad("New"); created[o]++; state.live[o] = new Obj(o); return 0; }
		if (op == "Release") { obj(a.i("o"))->Release(); return 0; }
		if (op == "RefSet") { ref(a.i("k")) = obj(a.i("o")); return 0; }
		if (op == "RefMove") { ref(a.i("k")) = ref(a.i("m")); return 0; }
		if (op == "PtrSet") { *ptrs[a.i("p") - 1] = obj(a.i("o")); return 0; }
		if (op == "PtrCopy") { *ptrs[a.i("p") - 1] = *ptrs[a.i("q") - 1]; return 0; }
		if (op == "PtrClone")
		{
			FUTrackedPtr<Obj>*& p = ptrs[a.i("p") - 1];
			delete p; p = new FUTrackedPtr<Obj>(*ptrs[a.i("q") - 1]); return 0;
		}
		if (op.compare(0, 4, "List") == 0)
		{
			FUTrackedList<Obj>& l = *lists[a.i("p") - 1];
			if (op == "ListPush") { l.push_back(obj(a.i("o"))); return l.size(); }
			if (op == "ListInsert") { Obj* o = obj(a.i("o")); FUTrackedList<Obj>::iterator it = l.insert(l.begin() + (a.i("i") - 1), o); return *it == o && it == l.begin() + (a.i("i") - 1) ? (int) l.size() : -1; }
			if (op == "ListInsertMany")
			{
				std::vector<Obj*> v; for (int o : a.l("l")) v.push_back(obj(o));
				l.insert(l.begin() + (a.i("i") - 1), v.data(), v.data() + v.size()); return l.size();
			}
			if (op == "ListErase") { if (a.i("i") % 2) l.erase(l.begin() + (a.i("i") - 1)); else l.erase((size_t) a.i("i") - 1); return l.size(); }
			if (op == "ListEraseVal") return l.erase(obj(a.i("o")));
			if (op == "ListEraseRange") { l.erase((size_t) a.i("i") - 1, (size_t) a.i("j") - 1); return l.size(); }
			if (op == "ListPopBack") { l.pop_back(); return 0; }
			if (op == "ListPopFront") { l.pop_front(); return 0; }
			if (op == "ListClear") { l.clear(); return 0; }
			if (op == "ListRelease") return l.release(obj(a.i("o")));
			if (op == "ListCopy") { l = *lists[a.i("q") - 1]; return 0; }
			if (op == "ListClone")
			{
				FUTrackedList<Obj>*& p = lists[a.i("p") - 1];
				delete p; p = new FUTrackedList<Obj>(*lists[a.i("q") - 1]); return 0;
			}
			bad(op);
		}
		FUObjectContainer<Obj>& c = cont(a.i("c"));
		if (op == "Push") { c.push_back(obj(a.i("o"))); return c.size(); }
		if (op == "Insert")
		{
			Obj* o = obj(a.i("o")); size_t i = a.i("i") - 1;
			if (i % 2) c.insert(i, o); else { FUObjectContainer<Obj>::iterator it = c.insert(c.begin() + i, o); if (*it != o || it != c.begin() + i) return -1; }
			return c.size();
		}
		if (op == "InsertMany")
		{
			std::vector<Obj*> v; for (int o : a.l("l")) v.push_back(obj(o));
			c.insert(c.begin() + (a.i("i") - 1), v.data(), v.data() + v.size()); return c.size();
		}
		if (op == "Erase") { size_t i = a.i("i") - 1; if (i % 2) c.erase(i); else c.erase(c.begin() + i); return c.size(); }
		if (op == "EraseVal") return c.erase(obj(a.i("o")));
		if (op == "EraseRange") { c.erase((size_t) a.i("i") - 1, (size_t) a.i("j") - 1); return c.size(); }
		if (op == "PopBack") { c.pop_back(); return c.size(); }
		if (op == "PopFront") { c.pop_front(); return c.size(); }
		if (op == "Clear") { c.clear(); return c.size(); }
		if (op == "Detach") { c.Detach(c.begin() + (a.i("i") - 1)); return c.size(); }
		if (op == "DetachVal") return c.Detach(obj(a.i("o")));
		if (op == "DetachRange") { c.Detach((size_t) a.i("i") - 1, (size_t) a.i("j") - 1); return c.size(); }
		if (op == "Transfer") { Obj* o = c[a.i("i") - 1]; c.Detach(o); cont(a.i("d")).push_back(o); return 0; }
		bad(op);
	}
	J obs() override
	{
		J j = J::obj(), alive = J::arr(), conts = J::arr(), rf = J::arr(), pt = J::arr(), ls = J::arr(), trk = J::arr();
		for (int i = 1; i <= nobj; ++i)
		{
			// alive exactly when created once more than destroyed
			bool up = state.live[i] != NULL;
			if (created[i] - state.destroyed[i] != (up ? 1 : 0)) alive.add(-1); else alive.add(up);
		}
		for (int c = 0; c <= ncont; ++c)
		{
			J l = J::arr();
			if (c == 0 || state.live[c]) { FUObjectContainer<Obj>& k = cont(c); for (size_t n = 0; n < k.size(); ++n) { int id = idOf(k[n]); l.add(id > 0 && k.contains(k[n]) ? id : -1); } }
			conts.add(l);
		}
		for (int k = 1; k <= nref + nhold; ++k) rf.add(k <= nref || state.live[k - nref] ? idOf((Obj*) ref(k)) : 0);
		for (auto* p : ptrs) { int id = idOf((Obj*) *p); pt.add(id > 0 && !p->TracksObject(obj(id)) ? -2 : id); }
		for (auto* p : lists) { J l = J::arr(); for (size_t n = 0; n < p->size(); ++n) { int id = idOf((*p)[n]); l.add(id > 0 && p->contains(obj(id)) && p->TracksObject(obj(id)) ? id : -1); } ls.add(l); }
		for (int i = 1; i <= nobj; ++i) trk.add(state.live[i] ? (int) state.live[i]->GetTrackerCount() : 0);
		j.set("alive", alive).set("cont", conts).set("ref", rf).set("ptr", pt).set("lst", ls).set("trk", trk);
		return j;
	}
	J finish() override
	{
		// the trackers go first for half of the histories: nothing may be left tracked
		for (auto* p : ptrs) delete p;
		for (auto* p : lists) delete p;
		for (int i = 1; i <= nobj; ++i) if (state.live[i] && state.live[i]->GetTrackerCount() != 0) return "trackers left";
		for (auto* r : refs) delete r;
		delete root;
		// what is left is owned by nobody, or by something nobody owns
		for (int i = 1; i <= nobj; ++i) if (state.live[i]) state.live[i]->Release();
		for (int i = 1; i <= nobj; ++i) if (state.live[i] || created[i] != state.destroyed[i]) return "object left";
		S = NULL;
		return true;
	}
};
}
VT_MODEL("objects", Objects)
