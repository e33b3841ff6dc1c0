#include "vt.h"
#include "vt_io.h"
#include "FCDocument/FCDGeometry.h"
#include "FCDocument/FCDGeometrySpline.h"
#include "FCDocument/FCDLibrary.h"
using namespace vt;

namespace {
const FUDaeSplineType::Type types[] = { FUDaeSplineType::UNKNOWN, FUDaeSplineType::LINEAR, FUDaeSplineType::BEZIER, FUDaeSplineType::NURBS };

struct DocSpline : public Model
{
	FCDocument* doc = NULL;
	FCDGeometrySpline* geo = NULL;
	void reset(const Args&) override
	{
		FCollada::Initialize();
		doc = FCollada::NewTopDocument();
		FCDGeometry* g = doc->GetGeometryLibrary()->AddEntity(); g->SetDaeId("geometry");
		geo = g->CreateSpline();
	}
	J op(const Args& a) override
	{
		const std::string& op = a.op;
		FCDSpline* s = a.has("i") ? geo->GetSpline(a.i("i") - 1) : NULL;
		if (op == "Type") { geo->SetType(types[a.i("t")]); return 0; }
		if (op == "Add") { s = geo->AddSpline(); if (s->HasType(FCDNURBSSpline::GetClassType())) ((FCDNURBSSpline*) s)->SetDegree(a.i("g")); return 0; }
		if (op == "Close") { s->SetClosed(a.i("c") != 0); return 0; }
		if (op == "Point")
		{
			FMVector3 p(a.i("p") / 4.0f, a.i("p") * -10.0f, (float) geo->GetSplineCount());
			p.z = 7.0f;
			if (s->HasType(FCDNURBSSpline::GetClassType())) ((FCDNURBSSpline*) s)->AddCV(p, a.i("w") / 4.0f);
			else if (s->HasType(FCDBezierSpline::GetClassType())) ((FCDBezierSpline*) s)->AddCV(p);
			else ((FCDLinearSpline*) s)->AddCV(p);
			return 0;
		}
		if (op == "Knot") { FCDNURBSSpline* n = (FCDNURBSSpline*) s; int m = a.i("n") == 0 ? (int) (n->GetCVCount() + n->GetDegree() + 1 - n->GetKnotCount()) : 1; for (int j = 1; j <= m; ++j) n->AddKnot((a.i("k") + j) / 4.0f); return 0; }
		if (op == "Remove") { s->Release(); return 0; }
		if (op == "Save") return twice(doc);
		if (op == "Again")
		{
			doc = saveload(doc); geo = NULL;
			if (doc == NULL) return "load";
			FCDGeometry* g = doc->FindGeometry("geometry");
			if (g == NULL || g->GetSpline() == NULL) return "spline";
			geo = g->GetSpline();
			return 0;
		}
		bad(op);
	}
	J obs() override
	{
		if (geo == NULL) return "none";
		J l = J::arr();
		int t = -1; for (int i = 0; i < 4; ++i) if (geo->GetType() == types[i]) t = i;
		for (size_t i = 0; i < geo->GetSplineCount(); ++i)
		{
			FCDSpline* s = geo->GetSpline(i);
			J p = J::arr(), w = J::arr(), k = J::arr(); int g = 0;
			for (size_t j = 0; j < s->GetCVCount(); ++j) { const FMVector3& v = *s->GetCV(j); int x = q(v.x, 4); p.add(v.y == x * -10.0f && v.z == 7.0f ? x : -999); }
			if (s->HasType(FCDNURBSSpline::GetClassType()))
			{
				FCDNURBSSpline* n = (FCDNURBSSpline*) s;
				for (size_t j = 0; j < n->GetWeights().size(); ++j) w.add(q(n->GetWeights()[j], 4));
				for (size_t j = 0; j < n->GetKnotCount(); ++j) k.add(q(*n->GetKnot(j), 4));
				g = (int) n->GetDegree();
			}
			if (s->GetSplineType() != geo->GetType()) t = -2;
			l.add(J::obj().set("c", s->IsClosed() ? 1 : 0).set("p", p).set("w", w).set("k", k).set("g", g));
		}
		return J::obj().set("t", t).set("s", l);
	}
	J finish() override { SAFE_RELEASE(doc); FCollada::Release(); return true; }
};
}
VT_MODEL("docspline", DocSpline)
