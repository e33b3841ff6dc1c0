#include "vt.h"
#include "FMath/FMQuaternion.h"
#include "FMath/FMMatrix44.h"
#include "FMath/FMMatrix33.h"
#include "FMath/FMAngleAxis.h"
#include <math.h>
using namespace vt;

namespace {
static bool whole(double v) { double d = v - floor(v + 0.5); return d < 2e-4 && d > -2e-4; }

struct Rotations : public Model
{
	FMQuaternion x;
	int maxN = 0;
	void reset(const Args& a) override { maxN = 4 * a.i("MaxN"); x = FMQuaternion::Identity; }
	// the smallest N for which the quaternion is an integer vector divided by the root of N
	int n(const FMQuaternion& q)
	{
		for (int k = 1; k <= maxN; ++k) { double r = sqrt((double) k); if (whole(q.x * r) && whole(q.y * r) && whole(q.z * r) && whole(q.w * r)) return k; }
		return 0;
	}
	J prim(const FMQuaternion& q)
	{
		int k = n(q); double r = sqrt((double) k);
		if (k == 0) return J("irrational");
		return J::arr().add(vt::q(q.x * r)).add(vt::q(q.y * r)).add(vt::q(q.z * r)).add(vt::q(q.w * r));
	}
	static FMQuaternion quat(const std::vector<int>& v) { return FMQuaternion((float) v[0], (float) v[1], (float) v[2], (float) v[3]).Normalize(); }
	static FMVector3 vec(const std::vector<int>& v) { return FMVector3((float) v[0], (float) v[1], (float) v[2]); }
	static J list(const FMVector3& v, int k) { return J::arr().add(vt::q(v.x, k)).add(vt::q(v.y, k)).add(vt::q(v.z, k)); }
	static J flat(const FMMatrix44& m, int k, int cols = 3)
	{
		J l = J::arr();
		for (int r = 0; r < 3; ++r) for (int c = 0; c < cols; ++c) l.add(vt::q(m[c][r], k));
		for (int c = 0; c < 4; ++c) if (c < cols ? !IsEquivalent(m[c][3], c == 3 ? 1.0f : 0.0f) : false) l.add("projective");
		return l;
	}
	static FMVector3 angles(const std::vector<int>& e) { return FMVector3((float) FMath::Pi / 2 * e[0], (float) FMath::Pi / 2 * e[1], (float) FMath::Pi / 2 * e[2]); }
	J op(const Args& a) override
	{
		const std::string& op = a.op;
		int k = n(x);
		if (op == "Set") { x = quat(a.l("v")); return 0; }
		if (op == "Mul") { x *= quat(a.l("v")); return 0; }
		if (op == "PreMul") { x = quat(a.l("v")) * x; return 0; }
		if (op == "Conj") { x = ~x; return 0; }
		if (op == "Rotate") { FMVector3 p = vec(a.l("p")); return J::arr().add(list(x * p, k)).add(list(x.ToMatrix().TransformVector(p), k)); }
		if (op == "Matrix") { FMMatrix44 m = x.ToMatrix(); return J::arr().add(flat(m, k)).add(flat(FMQuaternion::MatrixRotationQuaternion(m).ToMatrix(), k)); }
		if (op == "AngleAxis")
		{
			FMVector3 axis; float angle;
			x.ToAngleAxis(axis, angle);
			bool same = IsEquivalent(axis.Length(), 1.0f) && FMAngleAxis(axis, angle) == FMAngleAxis(-axis, -angle);
			return J::arr().add(flat(FMQuaternion(axis, angle).ToMatrix(), k)).add(flat(FMMatrix44::AxisRotationMatrix(axis, angle), k)).add(same);
		}
		if (op == "Euler")
		{
			FMVector3 e = x.ToEuler();
			return J::arr().add(flat(FMQuaternion::EulerRotationQuaternion(e.x, e.y, e.z).ToMatrix(), k)).add(flat(FMMatrix44::EulerRotationMatrix(e), k));
		}
		if (op == "EulerNear")
		{
			FMVector3 near = angles(a.l("e")), e = x.ToEuler(&near);
			float d = max(fabsf(e.x - near.x), max(fabsf(e.y - near.y), fabsf(e.z - near.z)));
			return J::arr().add(flat(FMQuaternion::EulerRotationQuaternion(e.x, e.y, e.z).ToMatrix(), k)).add(flat(FMMatrix44::EulerRotationMatrix(e), k)).add(d <= FMath::Pif + 0.001f);
		}
		if (op == "FromEuler") { FMVector3 e = angles(a.l("e")); return J::arr().add(flat(FMQuaternion::EulerRotationQuaternion(e.x, e.y, e.z).ToMatrix(), 1)).add(flat(FMMatrix44::EulerRotationMatrix(e), 1)); }
		if (op == "Slerp") return prim(x.slerp(quat(a.l("v")), a.i("t") / 2.0f));
		if (op == "Parts")
		{
			FMMatrix44 m = FMMatrix44::TranslationMatrix(vec(a.l("t"))) * x.ToMatrix() * FMMatrix44::ScaleMatrix(vec(a.l("s")));
			FMVector3 s, r, t; float inverted;
			m.Decompose(s, r, t, inverted);
			FMMatrix44 again; again.Recompose(s, r, t, inverted);
			return J::arr().add(flat(again, k, 4)).add(list(s, 1)).add(list(t, 1)).add(vt::q(inverted));
		}
		if (op == "Compose") { FMMatrix44 m; m.Recompose(vec(a.l("s")), angles(a.l("e")), vec(a.l("t")), (float) a.i("i")); return flat(m, 1, 4); }
		bad(op);
	}
	J obs() override { return J::obj().set("q", prim(x)); }
};
}
VT_MODEL("rotations", Rotations)
