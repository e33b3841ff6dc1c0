#include "vt.h"
#include "FUtils/FUBoundingBox.h"
#include "FUtils/FUBoundingSphere.h"
#include "FMath/FMMatrix44.h"
using namespace vt;

namespace {
struct Bounds : public Model
{
	FUBoundingBox box; FUBoundingSphere ball; float u = 1;
	void reset(const Args& a) override { u = (float) a.i("U"); }
	static FMVector3 vec(const std::vector<int>& v) { return FMVector3((float) v[0], (float) v[1], (float) v[2]); }
	static FUBoundingBox boxOf(const std::vector<std::vector<int>>& b) { return b.empty() ? FUBoundingBox() : FUBoundingBox(vec(b[0]), vec(b[1])); }
	FUBoundingSphere ballOf(const std::vector<int>& b) { return b.empty() ? FUBoundingSphere() : FUBoundingSphere(FMVector3(b[0] / u, 0, 0), b[1] / u); }
	static J list(const FMVector3& v, float k = 1) { return J::arr().add(q(v.x * k)).add(q(v.y * k)).add(q(v.z * k)); }
	J op(const Args& a) override
	{
		const std::string& op = a.op;
		if (op == "BoxPoint") { box.Include(vec(a.l("p"))); return 0; }
		if (op == "BoxBox") { box.Include(boxOf(a.ll("b"))); return 0; }
		if (op == "BoxSet") { box = boxOf(a.ll("b")); return 0; }
		if (op == "BoxReset") { box.Reset(); return 0; }
		if (op == "BoxMove")
		{
			std::vector<int> v = a.l("m"); FMMatrix44 m = FMMatrix44::Identity;
			for (int r = 0; r < 3; ++r) for (int c = 0; c < 4; ++c) m[c][r] = (float) v[4 * r + c];
			box = box.Transform(m); return 0;
		}
		if (op == "BoxHas") return box.Contains(vec(a.l("p")));
		if (op == "BoxMeets")
		{
			FUBoundingBox o = boxOf(a.ll("b")); FMVector3 c;
			bool x = box.Overlaps(o, &c), y = o.Overlaps(box);
			return J::arr().add(x).add(y).add(x ? list(c, 2) : J::arr());
		}
		if (op == "BoxSame") return box.Equals(boxOf(a.ll("b")));
		if (op == "BallPoint") { ball.Include(FMVector3(a.i("x") / u, 0, 0)); return 0; }
		if (op == "BallBall") { ball.Include(ballOf(a.l("c"))); return 0; }
		if (op == "BallSet") { ball = ballOf(a.l("c")); return 0; }
		if (op == "BallBox") { std::vector<int> l = a.l("l"); ball.Include(l.empty() ? FUBoundingBox() : FUBoundingBox(FMVector3(l[0] / u, 0, 0), FMVector3(l[1] / u, 0, 0))); return 0; }
		if (op == "BallReset") { ball.Reset(); return 0; }
		if (op == "BallMove") { ball = ball.Transform(FMMatrix44::TranslationMatrix(FMVector3(a.i("t") / u, 0, 0)) * FMMatrix44::ScaleMatrix(FMVector3((float) a.i("f"), 1, 1))); return 0; }
		if (op == "BallHas") return ball.Contains(vec(a.l("p")));
		if (op == "BallMeets")
		{
			FUBoundingSphere o = ballOf(a.l("c")); FMVector3 c(0, 0, 0);
			bool x = ball.Overlaps(o, &c), y = o.Overlaps(ball);
			if (c.y != 0 || c.z != 0) return J("off the axis");
			return J::arr().add(x).add(y).add(x ? q(c.x * 2 * u) : 0);
		}
		if (op == "Across")
		{
			FUBoundingBox o = boxOf(a.ll("b"));
			bool x = ball.Overlaps(o), y = o.Overlaps(ball);
			return x == y ? J(x) : J("asymmetric");
		}
		bad(op);
	}
	J obs() override
	{
		J b = J::arr(), s = J::arr();
		if (box.IsValid()) b.add(list(box.GetMin())).add(list(box.GetMax()));
		if (ball.IsValid()) s.add(q(ball.GetCenter().x * u)).add(q(ball.GetRadius() * u));
		if (ball.GetCenter().y != 0 || ball.GetCenter().z != 0) s.add("off the axis");
		return J::obj().set("box", b).set("ball", s);
	}
};
}
VT_MODEL("bounds", Bounds)
