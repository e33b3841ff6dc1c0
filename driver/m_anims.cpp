#include "vt.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDLibrary.h"
#include "FCDocument/FCDAnimated.h"
#include "FCDocument/FCDAnimation.h"
#include "FCDocument/FCDAnimationChannel.h"
#include "FCDocument/FCDAnimationCurve.h"
#include "FCDocument/FCDAnimationMultiCurve.h"
#include "FCDocument/FCDAnimationKey.h"
#include "FCDocument/FCDParameterAnimatable.h"
#include "FMath/FMSkew.h"
#include "FMath/FMLookAt.h"
#include "FMath/FMAngleAxis.h"
using namespace vt;

namespace {
float* part(float& v, int) { return &v; }
float* part(FMVector2& v, int d) { return d == 0 ? &v.x : &v.y; }
float* part(FMVector3& v, int d) { return d == 0 ? &v.x : d == 1 ? &v.y : &v.z; }
float* part(FMVector4& v, int d) { return d == 0 ? &v.x : d == 1 ? &v.y : d == 2 ? &v.z : &v.w; }
float* part(FMAngleAxis& v, int d) { return d < 3 ? part(v.axis, d) : &v.angle; }
float* part(FMLookAt& v, int d) { return d < 3 ? part(v.position, d) : d < 6 ? part(v.target, d - 3) : part(v.up, d - 6); }
float* part(FMSkew& v, int d) { return d < 3 ? part(v.rotateAxis, d) : d < 6 ? part(v.aroundAxis, d - 3) : &v.angle; }
float* part(FMMatrix44& v, int d) { return &v[d % 4][d / 4]; }

struct Param : public FCDObject
{
	Param(FCDocument* d) : FCDObject(d) {}
	virtual FCDParameterAnimatable& p() = 0;
	virtual float* at(int d) = 0;
};
template <class T, int Q> struct ParamT : public Param
{
	FCDParameterAnimatableT<T, Q> v;
	ParamT(FCDocument* d) : Param(d), v(this) {}
	FCDParameterAnimatable& p() override { return v; }
	float* at(int d) override { return part(*v, d); }
};
struct AnimsM : public Model
{
	FCDocument* doc = NULL;
	std::string kind;
	int dims = 0;
	std::vector<FUTrackedPtr<FCDAnimation> > anims;
	std::vector<FUTrackedPtr<FCDAnimationChannel> > chans;
	std::vector<FUTrackedPtr<FCDAnimationCurve> > curves;
	std::vector<FUTrackedPtr<Param> > objs;

	Param* make()
	{
		Param* p = NULL;
		if (kind == "float") { dims = 1; p = new ParamT<float, 0>(doc); }
		if (kind == "vector2") { dims = 2; p = new ParamT<FMVector2, 0>(doc); }
		if (kind == "vector3") { dims = 3; p = new ParamT<FMVector3, 0>(doc); }
		if (kind == "color3") { dims = 3; p = new ParamT<FMVector3, 1>(doc); }
		if (kind == "vector4") { dims = 4; p = new ParamT<FMVector4, 0>(doc); }
		if (kind == "color4") { dims = 4; p = new ParamT<FMVector4, 1>(doc); }
		if (kind == "rotation") { dims = 4; p = new ParamT<FMAngleAxis, 0>(doc); }
		if (kind == "lookat") { dims = 9; p = new ParamT<FMLookAt, 0>(doc); }
		if (kind == "skew") { dims = 7; p = new ParamT<FMSkew, 0>(doc); }
		if (kind == "matrix") { dims = 16; p = new ParamT<FMMatrix44, 0>(doc); }
		if (p == NULL) bad(kind);
		for (int d = 0; d < dims; ++d) *p->at(d) = (float) (d + 1);
		return p;
	}
	void reset(const Args& a) override
	{
		FCollada::Initialize();
		doc = FCollada::NewTopDocument();
		kind = a.s("Kind");
		anims.resize(a.i("NAnim")); chans.resize(a.i("NChan")); curves.resize(a.i("NCurve")); objs.resize(a.i("NObj"));
		for (size_t k = 0; k < objs.size(); ++k) objs[k] = make();
	}
	template <class T> int store(std::vector<FUTrackedPtr<T> >& l, T* x)
	{
		for (size_t k = 0; k < l.size(); ++k) if (l[k] == NULL) { l[k] = x; return (int) k + 1; }
		bad("no slot");
	}
	template <class T> int name(std::vector<FUTrackedPtr<T> >& l, const T* x)
	{
		if (x == NULL) return 0;
		for (size_t k = 0; k < l.size(); ++k) if (l[k] == x) return (int) k + 1;
		return -1;
	}
	J multi(FCDAnimationMultiCurve* c, int n)
	{
		J r = J::arr();
		if (c == NULL) return r;
		if ((int) c->GetDimension() != n) { c->Release(); return "dimension"; }
		std::vector<float> out(n);
		c->Evaluate(0.0f, out.data());
		for (float f : out) r.add(q(f));
		c->Release();
		return r;
	}
	J op(const Args& a) override
	{
		const std::string& op = a.op;
		int p = a.has("p") ? a.i("p") : 0;
		Param* o = a.has("o") ? (Param*) objs[a.i("o") - 1] : NULL;
		int d = a.has("d") ? a.i("d") - 1 : 0;
		if (op == "AddAnim") return store(anims, p == 0 ? doc->GetAnimationLibrary()->AddEntity() : anims[p - 1]->AddChild());
		if (op == "AddChan") return store(chans, anims[p - 1]->AddChannel());
		if (op == "AddCurve")
		{
			FCDAnimationCurve* c = chans[p - 1]->AddCurve();
			int k = store(curves, c);
			c->AddKey(FUDaeInterpolation::LINEAR, 0.0f)->output = (float) (1000 + k);
			return k;
		}
		if (op == "KillAnim") { anims[p - 1]->Release(); return 0; }
		if (op == "KillChan") { chans[p - 1]->Release(); return 0; }
		if (op == "KillCurve") { curves[p - 1]->Release(); return 0; }
		if (op == "Bind") return o->p().GetAnimated()->AddCurve(d, curves[a.i("c") - 1]);
		if (op == "BindAll")
		{
			FCDAnimationCurveList l;
			for (size_t k = 0; k < chans[p - 1]->GetCurveCount(); ++k) l.push_back(chans[p - 1]->GetCurve(k));
			return o->p().GetAnimated()->AddCurve(d, l);
		}
		if (op == "Unbind") return o->p().GetAnimated()->RemoveCurve(d);
		if (op == "Set") { *o->at(d) = (float) a.i("x"); return 0; }
		if (op == "Evaluate") { o->p().GetAnimated()->Evaluate(0.0f); return 0; }
		if (op == "CopyTo") { o->p().GetAnimated()->Clone(objs[a.i("o2") - 1]->p().GetAnimated()); return 0; }
		if (op == "Release") { o->Release(); return 0; }
		if (op == "Again") { objs[a.i("o") - 1] = make(); return 0; }
		if (op == "Multi") return multi(o->p().GetAnimated()->CreateMultiCurve(), dims);
		if (op == "MultiAll")
		{
			FCDAnimatedList l;
			for (size_t k = 0; k < objs.size(); ++k) if (objs[k] != NULL) l.push_back(objs[k]->p().GetAnimated());
			return multi(FCDAnimated::CreateMultiCurve(l), dims * (int) l.size());
		}
		if (op == "Find")
		{
			FCDAnimated* n = o->p().GetAnimated();
			fm::string s(a.s("q").c_str());
			size_t x = n->FindQualifier(s.c_str());
			if (n->FindQualifier(s) != x) return "qualifier";
			if (x == (size_t) -1) return J::arr().add(0).add(n->FindCurve(s) == NULL ? 0 : 1);
			if (n->FindValue(s) != (n->GetQualifier(x) == s ? o->at((int) x) : NULL) || n->FindValue(o->at((int) x)) != x) return "value";
			if (n->FindCurve(o->at((int) x)) != n->FindCurve(s)) return "curve";
			return J::arr().add((int) x + 1).add(name(curves, (const FCDAnimationCurve*) n->FindCurve(s)));
		}
		if (op == "CurvesOf")
		{
			FCDAnimationCurveList l;
			anims[p - 1]->GetCurves(l);
			J r = J::arr();
			for (size_t k = 0; k < l.size(); ++k) r.add(name(curves, (const FCDAnimationCurve*) l[k]));
			return r;
		}
		bad(op);
	}
	J kids(int parent)
	{
		J r = J::arr();
		FCDAnimationLibrary* lib = doc->GetAnimationLibrary();
		FCDAnimation* p = parent == 0 ? NULL : (FCDAnimation*) anims[parent - 1];
		if (parent != 0 && p == NULL) return r;
		size_t n = p == NULL ? lib->GetEntityCount() : p->GetChildrenCount();
		for (size_t k = 0; k < n; ++k)
		{
			FCDAnimation* x = p == NULL ? lib->GetEntity(k) : p->GetChild(k);
			if (x->GetParent() != p || x->GetDocument() != doc) r.add("parent"); else r.add(name(anims, x));
		}
		return r;
	}
	J obs() override
	{
		J k = J::arr(), ch = J::arr(), cu = J::arr(), val = J::arr(), cur = J::arr(), any = J::arr();
		for (int p = 0; p <= (int) anims.size(); ++p) k.add(kids(p));
		for (auto& n : anims)
		{
			J r = J::arr();
			if (n != NULL) for (size_t i = 0; i < n->GetChannelCount(); ++i) { FCDAnimationChannel* c = n->GetChannel(i); if (c->GetParent() != n) r.add("parent"); else r.add(name(chans, c)); }
			ch.add(r);
		}
		for (auto& n : chans)
		{
			J r = J::arr();
			if (n != NULL) for (size_t i = 0; i < n->GetCurveCount(); ++i) { FCDAnimationCurve* c = n->GetCurve(i); if (c->GetParent() != n) r.add("parent"); else r.add(name(curves, c)); }
			cu.add(r);
		}
		for (auto& o : objs)
		{
			J v = J::arr(), c = J::arr();
			for (int d = 0; d < dims; ++d)
			{
				J l = J::arr();
				v.add(o == NULL ? J(d + 1) : q(*o->at(d)));
				if (o != NULL && o->p().IsAnimated()) for (size_t z = 0; z < o->p().GetAnimated()->GetCurveCount(d); ++z) l.add(name(curves, (const FCDAnimationCurve*) o->p().GetAnimated()->GetCurve(d, z)));
				c.add(l);
			}
			val.add(v); cur.add(c); any.add(o != NULL && o->p().IsAnimated());
		}
		return J::obj().set("kids", k).set("chans", ch).set("curves", cu).set("val", val).set("cur", cur).set("any", any);
	}
	J finish() override { for (auto& o : objs) if (o != NULL) o->Release(); doc->Release(); FCollada::Release(); return true; }
};
}
VT_MODEL("anims", AnimsM)
