#include "vt.h"
#include "FMath/FMMatrix44.h"
#include "FMath/FMMatrix33.h"
using namespace vt;

namespace {
template <class M, int D>
struct Matrices : public Model
{
	M m;
	static float at(const M& m, int c, int r) { return ((M&) m)[c][r]; }
	static M of(const std::vector<int>& v) { M r; for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) r[j][i] = (float) v[D * i + j]; return r; }
	static J flat(const M& m, float k = 1) { J l = J::arr(); for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) l.add(q(at(m, j, i) * k)); return l; }
	void reset(const Args&) override { std::vector<int> v; for (int i = 0; i < D * D; ++i) v.push_back(i % (D + 1) == 0); m = of(v); }
	static void mulBy(FMMatrix44& m, const FMMatrix44& b) { m *= b; }
	static void mulBy(FMMatrix33& m, const FMMatrix33& b) { m = m * b; }
	static float det(const FMMatrix44& m) { return m.Determinant(); }
	static float det(const FMMatrix33& m) { FMMatrix44 x = FMMatrix44::Identity; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) x[i][j] = at(m, i, j); return x.Determinant(); }
	static void scale(FMMatrix44& m, float f) { m = f * m; }
	static void scale(FMMatrix33&, float) { bad("scale"); }
	static J list(const float* p, int n) { J l = J::arr(); for (int i = 0; i < n; ++i) l.add(q(p[i])); return l; }
	static J vec(const FMMatrix44& m, const FMVector4& v)
	{
		FMVector3 p(v.x, v.y, v.z), a = m.TransformCoordinate(p), d = m.TransformVector(p);
		FMVector4 b = m * v, c = m.TransformCoordinate(v);
		float fb[4] = { b.x, b.y, b.z, b.w }, fc[4] = { c.x, c.y, c.z, c.w }, fa[3] = { a.x, a.y, a.z }, fd[3] = { d.x, d.y, d.z };
		return J::arr().add(list(fb, 4)).add(list(fc, 4)).add(list(fa, 3)).add(list(fd, 3));
	}
	static J vec(const FMMatrix33&, const FMVector4&) { bad("vec"); }
	static bool same(const FMMatrix44& a, const FMMatrix44& b) { return IsEquivalent(a, b); }
	static bool same(const FMMatrix33& a, const FMMatrix33& b) { for (int i = 0; i < 9; ++i) if (at(a, i / 3, i % 3) != at(b, i / 3, i % 3)) return false; return true; }
	J op(const Args& a) override
	{
		const std::string& op = a.op;
		if (op == "Set") { m = of(a.l("v")); return 0; }
		if (op == "Mul") { mulBy(m, of(a.l("v"))); return 0; }
		if (op == "PreMul") { m = of(a.l("v")) * m; return 0; }
		if (op == "Transpose") { m = m.Transposed(); return 0; }
		if (op == "Invert") { m = m.Inverted(); return 0; }
		if (op == "Inverse") return flat(m.Inverted(), det(m));
		if (op == "Det") return q(det(m));
		if (op == "Scale") { scale(m, (float) a.i("f")); return 0; }
		if (op == "Vec") { std::vector<int> p = a.l("p"); return vec(m, FMVector4((float) p[0], (float) p[1], (float) p[2], (float) p[3])); }
		if (op == "Same") return same(m, of(a.l("v")));
		bad(op);
	}
	J obs() override { return flat(m); }
};
typedef Matrices<FMMatrix44, 4> Matrices44;
typedef Matrices<FMMatrix33, 3> Matrices33;
}
VT_MODEL("matrices4", Matrices44)
VT_MODEL("matrices3", Matrices33)
