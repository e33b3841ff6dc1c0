#include "vt.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDLibrary.h"
#include "FCDocument/FCDAnimation.h"
#include "FCDocument/FCDAnimationChannel.h"
#include "FCDocument/FCDAnimationClip.h"
#include "FCDocument/FCDAnimationCurve.h"
#include "FCDocument/FCDAnimationMultiCurve.h"
#include "FCDocument/FCDAnimationCurveTools.h"
#include "FCDocument/FCDAnimationKey.h"
using namespace vt;

namespace {
static float dV, dT;
static float addV(float v) { return v + dV; }
static float addT(float v) { return v + dT; }
struct Curve : public Model
{
	FCDocument* doc; FCDAnimationChannel* ch;
	std::vector<FCDAnimationCurve*> c; std::vector<FCDAnimationClip*> clips; int gap;
	int flavour = 0;
	static FUDaeInterpolation::Interpolation kind(int k)
	{
		switch (k) { case 1: return FUDaeInterpolation::STEP; case 2: return FUDaeInterpolation::LINEAR; case 3: return FUDaeInterpolation::BEZIER; default: return FUDaeInterpolation::TCB; }
	}
	static int kindOf(uint32 k) { for (int i = 1; i <= 4; ++i) if (kind(i) == (FUDaeInterpolation::Interpolation) k) return i; return -1; }
	static FUDaeInfinity::Infinity inf(int k) { FUDaeInfinity::Infinity t[] = {FUDaeInfinity::CONSTANT, FUDaeInfinity::LINEAR, FUDaeInfinity::CYCLE, FUDaeInfinity::CYCLE_RELATIVE, FUDaeInfinity::OSCILLATE}; return t[k]; }
	static int infOf(FUDaeInfinity::Infinity k) { for (int i = 0; i < 5; ++i) if (inf(i) == k) return i; return -1; }
	void reset(const Args& a) override
	{
		FCDAnimationCurve::Set2DCurveEvaluation(false);
		doc = FCollada::NewTopDocument(); gap = a.i("Gap");
		ch = doc->GetAnimationLibrary()->AddEntity()->AddChannel();
		for (int i = 0; i < a.i("NCurve"); ++i) c.push_back(ch->AddCurve());
		for (int i = 0; i < a.i("NClip"); ++i) { clips.push_back(doc->GetAnimationClipLibrary()->AddEntity()); clips.back()->SetStart(12.0f * (i + 1)); clips.back()->SetEnd(99); }
	}
	void fill(FCDAnimationKey* k, int v)
	{
		k->output = (float) v;
		if (k->interpolation == FUDaeInterpolation::BEZIER)
		{
			FCDAnimationKeyBezier* b = (FCDAnimationKeyBezier*) k;
			b->inTangent = FMVector2(k->input - 4, k->output - 24); b->outTangent = FMVector2(k->input + 4, k->output + 12);
		}
		else if (k->interpolation == FUDaeInterpolation::TCB)
		{
			FCDAnimationKeyTCB* t = (FCDAnimationKeyTCB*) k;
			t->tension = 0.5f; t->continuity = 0.25f; t->bias = 0.125f; t->easeIn = 1; t->easeOut = 2;
		}
	}
	int scaled(float v) { return q(v, 1728); }
	J op(const Args& a) override
	{
		const std::string& op = a.op;
		FCDAnimationCurve* x = a.has("i") ? c[a.i("i") - 1] : NULL;
		++flavour;
		if (op == "Append")
		{
			float last = x->GetKeyCount() == 0 ? -(float) gap : x->GetKey(x->GetKeyCount() - 1)->input;
			FCDAnimationKey* k = x->AddKey(kind(a.i("k"))); k->input = last + gap; fill(k, a.i("v")); return 0;
		}
		if (op == "Insert")
		{
			size_t index = 999; FCDAnimationKey* k = x->AddKey(kind(a.i("k")), (float) a.i("t"), index); fill(k, a.i("v"));
			if (index >= x->GetKeyCount() || x->GetKey(index) != k) return "index";
			return (int) index;
		}
		if (op == "Delete") return x->DeleteKey(x->GetKey(a.i("j") - 1)) ? 1 : 0;
		if (op == "DeleteOther")
		{
			FCDAnimationCurve* y = ch->AddCurve(); FCDAnimationKey* k = y->AddKey(FUDaeInterpolation::LINEAR);
			bool r = x->DeleteKey(k); y->Release(); return r ? 1 : 0;
		}
		if (op == "SetCount")
		{
			size_t n = x->GetKeyCount(); float last = n == 0 ? -(float) gap : x->GetKey(n - 1)->input;
			x->SetKeyCount(a.i("n"), kind(a.i("k")));
			for (size_t j = n; j < x->GetKeyCount(); ++j) { x->GetKey(j)->input = last + gap * (float) (j + 1 - n); fill(x->GetKey(j), 0); }
			return 0;
		}
		if (op == "SetInf") { x->SetPreInfinity(inf(a.i("pre"))); x->SetPostInfinity(inf(a.i("post"))); return 0; }
		if (op == "Convert")
		{
			dV = (float) a.i("dv"); dT = (float) a.i("dt");
			if (flavour % 2) { x->ConvertValues(addV, addV); x->ConvertInputs(addT, addT); }
			else { FCDConversionOffsetFunctor v(dV), t(dT); x->ConvertValues(&v, &v); x->ConvertInputs(&t, &t); }
			return 0;
		}
		if (op == "Clone")
		{
			// into another curve, or into a new one that replaces it
			if (a.i("i") != a.i("j")) { x->Clone(c[a.i("j") - 1], false); return 0; }
			FCDAnimationCurve* n = x->Clone(NULL, true);
			std::vector<FCDAnimationClip*> made;
			bool ok = n->GetParent() == x->GetParent() && n->GetClipCount() == x->GetClipCount();
			for (size_t k = 0; k < n->GetClipCount(); ++k)
			{
				FCDAnimationClip* cl = n->GetClip(k); made.push_back(cl);
				ok = ok && k < x->GetClipCount() && n->GetClipOffset(k) == x->GetClipOffset(k) && cl->GetStart() == x->GetClip(k)->GetStart() && cl->GetEnd() == x->GetClip(k)->GetEnd()
					&& cl->GetClipCurves().size() == 1 && cl->GetClipCurves().front() == n;
			}
			J o = one(x), m = one(n);
			std::string s1, s2; o.a.resize(3); m.a.resize(3); o.write(s1); m.write(s2);
			// both follow a change of clip in the same way
			n->Release();
			for (auto* cl : made) { if (!cl->GetClipCurves().empty()) ok = false; cl->Release(); }
			if (s1 != s2) return m;
			return ok ? J(0) : J("clips of the clone");
		}
		if (op == "ClipAdd") { clips[a.i("j") - 1]->AddClipCurve(x); return 0; }
		if (op == "ClipOffset") { x->SetClipOffset((float) a.i("o"), clips[a.i("j") - 1]); return 0; }
		if (op == "ClipSet") { x->SetCurrentAnimationClip(a.i("j") == 0 ? NULL : clips[a.i("j") - 1]); return 0; }
		if (op == "Eval") return scaled(x->Evaluate((float) a.i("x")));
		if (op == "Eval2")
		{
			float f = x->Evaluate((float) a.i("x"));
			FCDAnimationCurve::Set2DCurveEvaluation(true); float g = x->Evaluate((float) a.i("x")); FCDAnimationCurve::Set2DCurveEvaluation(false);
			if (!(g - f <= 1.0f && f - g <= 1.0f)) return scaled(g);
			return scaled(f);
		}
		if (op == "Merge")
		{
			FCDAnimationCurveConstList l; FloatList def;
			for (auto* y : c) { l.push_back(y->GetKeyCount() == 0 && flavour % 2 ? NULL : y); def.push_back(7.0f); }
			FCDAnimationMultiCurve* m = FCDAnimationCurveTools::MergeCurves(l, def);
			if (m == NULL) return "no curve";
			std::vector<float> out(c.size(), -1.0f);
			m->Evaluate((float) a.i("x"), &out[0]);
			J j = J::arr(), vals = J::arr(); for (float f : out) vals.add(scaled(f));
			j.add((int) m->GetKeyCount()).add(vals);
			for (size_t k = 0; k < m->GetKeyCount(); ++k) if (kindOf(m->GetKey(k)->interpolation) != a.i("k")) j.add("interpolation");
			if (m->GetDimension() != c.size()) j.add("dimension");
			m->Release();
			return j;
		}
		bad(op);
	}
	J one(FCDAnimationCurve* x)
	{
		J o = J::arr(), keys = J::arr(), cl = J::arr();
		for (size_t k = 0; k < x->GetKeyCount(); ++k)
		{
			FCDAnimationKey* y = x->GetKey(k); J e = J::arr();
			int kd = kindOf(y->interpolation);
			e.add(q(y->input)).add(q(y->output)).add(kd);
			if (kd == 3) { FCDAnimationKeyBezier* b = (FCDAnimationKeyBezier*) y; if (!IsEquivalent(b->inTangent, FMVector2(y->input - 4, y->output - 24)) || !IsEquivalent(b->outTangent, FMVector2(y->input + 4, y->output + 12))) e.add("tangents"); }
			if (kd == 4) { FCDAnimationKeyTCB* t = (FCDAnimationKeyTCB*) y; if (t->tension != 0.5f || t->continuity != 0.25f || t->bias != 0.125f || t->easeIn != 1 || t->easeOut != 2) e.add("tcb"); }
			keys.add(e);
		}
		for (size_t k = 0; k < x->GetClipCount(); ++k)
		{
			int n = -1; for (size_t z = 0; z < clips.size(); ++z) if (clips[z] == x->GetClip(k)) n = (int) z + 1;
			J e = J::arr(); e.add(n).add(q(x->GetClipOffset(k))); cl.add(e);
		}
		o.add(keys).add(infOf(x->GetPreInfinity())).add(infOf(x->GetPostInfinity())).add(cl);
		return o;
	}
	J obs() override { J j = J::arr(); for (auto* x : c) j.add(one(x)); return j; }
	J finish() override { FCDAnimationCurve::Set2DCurveEvaluation(true); SAFE_RELEASE(doc); return true; }
};
}
VT_MODEL("curve", Curve)
