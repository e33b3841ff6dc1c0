#include "vt.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDLibrary.h"
#include "FCDocument/FCDAnimated.h"
#include "FCDocument/FCDAnimation.h"
#include "FCDocument/FCDAnimationChannel.h"
#include "FCDocument/FCDAnimationCurve.h"
#include "FCDocument/FCDAnimationKey.h"
#include "FCDocument/FCDParameterAnimatable.h"
using namespace vt;

namespace {
template <class T> struct Dim { enum { n = sizeof(T) / sizeof(float) }; };
template <class T, int Q> struct Holder : public FCDObject
{
	FCDParameterListAnimatableT<T, Q> list;
	Holder(FCDocument* d) : FCDObject(d), list(this) {}
};
template <class T> T make(int x) { T t; float* f = (float*) &t; for (int d = 0; d < Dim<T>::n; ++d) f[d] = (float) (x + 50 * d); return t; }

template <class T, int Q> struct AnimListM : public Model
{
	FCDocument* doc = NULL;
	Holder<T, Q>* h = NULL;
	FCDAnimationChannel* channel = NULL;
	std::vector<FCDAnimationCurve*> curves;

	void reset(const Args& a) override
	{
		FCollada::Initialize();
		doc = FCollada::NewTopDocument();
		h = new Holder<T, Q>(doc);
		channel = doc->GetAnimationLibrary()->AddEntity()->AddChannel();
		for (int k = 0; k < a.i("NCurve"); ++k) curves.push_back(newCurve(k));
	}
	FCDAnimationCurve* newCurve(int k)
	{
		FCDAnimationCurve* c = channel->AddCurve();
		c->AddKey(FUDaeInterpolation::LINEAR, 0.0f)->output = (float) (1001 + k);
		return c;
	}
	J op(const Args& a) override
	{
		const std::string& op = a.op;
		auto& l = h->list;
		int i = a.has("i") ? a.i("i") : 0, n = a.has("n") ? a.i("n") : 0;
		T x = make<T>(a.has("x") ? a.i("x") : 0);
		if (op == "Insert") { l.insert((size_t) i, x); return 0; }
		if (op == "InsertN") { l.insert((size_t) i, (size_t) n, x); return 0; }
		if (op == "InsertArr") { fm::vector<T> v; for (int k = 1; k <= n; ++k) v.push_back(make<T>(a.i("x") + k)); T spare; l.insert((size_t) i, n ? v.begin() : &spare, (size_t) n); return 0; }
		if (op == "PushBack") { l.push_back(x); return 0; }
		if (op == "PushFront") { l.push_front(x); return 0; }
		if (op == "PopBack") { l.pop_back(); return 0; }
		if (op == "PopFront") { l.pop_front(); return 0; }
		if (op == "EraseAt") { l.erase((size_t) i); return 0; }
		if (op == "EraseVal") { l.erase(x); return 0; }
		if (op == "EraseRange") { l.erase((size_t) i, (size_t) a.i("j")); return 0; }
		if (op == "Clear") { l.clear(); return 0; }
		if (op == "Shrink") { l.resize((size_t) n); return 0; }
		if (op == "Resize") { l.resize((size_t) n, x); return 0; }
		if (op == "Set") { l.set((size_t) i, x); return 0; }
		if (op == "Create") { return l.GetAnimated(i)->GetValueCount() == (size_t) Dim<T>::n ? 0 : 1; }
		if (op == "Curve") { FCDAnimated* n = l.GetAnimated(i); n->RemoveCurve(a.i("d") - 1); n->AddCurve(a.i("d") - 1, curves[a.i("k") - 1]); return 0; }
		if (op == "Uncurve") { return l.GetAnimated(i)->RemoveCurve(a.i("d") - 1); }
		if (op == "KillCurve") { int k = a.i("k") - 1; curves[k]->Release(); curves[k] = newCurve(k); return 0; }
		if (op == "Evaluate") { for (size_t k = 0; k < l.size(); ++k) if (l.IsAnimated(k)) l.GetAnimated(k)->Evaluate(0.0f); return 0; }
		bad(op);
	}
	J obs() override
	{
		auto& l = h->list;
		J v = J::arr(), c = J::arr();
		for (size_t i = 0; i < l.size(); ++i)
		{
			J t = J::arr(), k = J::arr();
			for (int d = 0; d < Dim<T>::n; ++d)
			{
				t.add(q(((const float*) &l.at(i))[d]));
				if (!l.IsAnimated(i)) { k.add(0); continue; }
				FCDAnimated* n = l.GetAnimated(i);
				int w = 0;
				for (size_t z = 0; z < curves.size(); ++z) if (n->GetCurve(d) == curves[z]) w = (int) z + 1;
				if (n->GetValue(d) != ((const float*) &l.at(i)) + d) k.add("value pointer");
				else if (n->GetArrayElement() != (int32) i) k.add("element");
				else if (n->GetCurve(d) != NULL && w == 0) k.add("curve");
				else k.add(w);
			}
			v.add(t); c.add(k);
		}
		return J::obj().set("v", v).set("c", c).set("any", l.IsAnimated(~(size_t) 0));
	}
	J finish() override { h->Release(); doc->Release(); FCollada::Release(); return true; }
};
typedef AnimListM<float, 0> AnimListFloat;
typedef AnimListM<FMVector2, 0> AnimListVector2;
typedef AnimListM<FMVector4, 1> AnimListColor4;
}
VT_MODEL("animlist1", AnimListFloat)
VT_MODEL("animlist2", AnimListVector2)
VT_MODEL("animlist4", AnimListColor4)
