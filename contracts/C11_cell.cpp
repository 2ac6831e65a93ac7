// C11 periodic cell: the real Cell.  Oracle: the documented definitions, evaluated on the cell's matrices before the call.
#include <prelude.hpp>
#include <core/Cell.cpp>

static Matrix3r mat(const char* n) { Matrix3r m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m(i, j) = vp_real(n); return m; }
static void same(const Matrix3r& a, const Matrix3r& b, const char* l) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) vp_eq(a(i, j), b(i, j), l); }
static void same(const Vector3r& a, const Vector3r& b, const char* l) { for (int i = 0; i < 3; i++) vp_eq(a[i], b[i], l); }
static Real det(const Matrix3r& m) { return m(0, 0) * (m(1, 1) * m(2, 2) - m(1, 2) * m(2, 1)) - m(0, 1) * (m(1, 0) * m(2, 2) - m(1, 2) * m(2, 0)) + m(0, 2) * (m(1, 0) * m(2, 1) - m(1, 1) * m(2, 0)); }
static Matrix3r mul(const Matrix3r& a, const Matrix3r& b) { Matrix3r m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m(i, j) = a(i, 0) * b(0, j) + a(i, 1) * b(1, j) + a(i, 2) * b(2, j); return m; }
static Matrix3r tr(const Matrix3r& a) { Matrix3r m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m(i, j) = a(j, i); return m; }
static Matrix3r Id() { Matrix3r m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m(i, j) = i == j; return m; }
static Cell* mk() { return new Cell; }

// the step: deformation gradient, base vectors and the quantities remembered for velocities across periods
HARNESS(c11_integrate)
{
	Cell* c = mk(); Matrix3r G = mat("G"), F = mat("F"), H = mat("H"); Real dt = vp_real("dt");
	c->velGrad = G; c->trsf = F; c->hSize = H; c->prevHSize = mat("P"); c->prevVelGrad = mat("pG"); c->nextVelGrad = mat("nG"); c->refHSize = mat("R");
	Matrix3r pG = c->prevVelGrad, nG = c->nextVelGrad, R = c->refHSize; int hd = c->homoDeform = vp_int("hd", 0, 3); bool ch = c->velGradChanged = vp_bool("ch");
	Matrix3r A = mul(G, F), B = mul(G, H); A = F + dt * A; B = H + dt * B;
	vp_assume(det(A) != 0); vp_assume(det(B) != 0);
	c->integrateAndUpdate(dt);
	same(c->trsf, A, "trsf'=(I+dt L)trsf"); same(c->hSize, B, "hSize'=(I+dt L)hSize"); same(c->prevHSize, H, "previous base vectors are remembered");
	same(c->velGrad, G, "velocity gradient unchanged"); same(c->prevVelGrad, pG, "frame"); same(c->nextVelGrad, nG, "frame"); same(c->refHSize, R, "frame");
	vp_check(c->homoDeform == hd && c->velGradChanged == ch, "frame");
	vp_cover("done");
}
// @opts time=200
HARNESS(c11_caches)
{
	Cell* c = mk(); Matrix3r H = mat("H"); c->hSize = H; c->velGrad = mat("G"); c->trsf = Id();
	vp_assume(det(H) != 0);
	c->integrateAndUpdate(0);
	for (int k = 0; k < 3; k++) {
		vp_lt(0, c->getSize()[k], "sizes are positive"); vp_eq(c->getSize()[k] * c->getSize()[k], H(0, k) * H(0, k) + H(1, k) * H(1, k) + H(2, k) * H(2, k), "size is the length of the base vector");
		for (int i = 0; i < 3; i++) vp_eq(c->getShearTrsf()(i, k) * c->getSize()[k], H(i, k), "shear transformation times sizes gives the base vectors");
	}
	same(mul(c->getUnshearTrsf(), c->getShearTrsf()), Id(), "unshear inverts shear");
	vp_cover("done");
}
HARNESS(c11_degenerate)
{
	Cell* c = mk(); c->hSize = mat("H"); c->velGrad = mat("G"); Real dt = vp_real("dt"); c->trsf = Id(); c->velGrad(0, 0) = 0;
	int k = vp_choice("k", 3); for (int i = 0; i < 3; i++) c->hSize(i, k) = c->hSize(i, (k + 1) % 3) * 3;
	bool thrown = false;
	try { c->integrateAndUpdate(vp_bool("still") ? 0 : dt); } catch (std::runtime_error&) { thrown = true; }
	vp_check(thrown, "a cell without volume is refused");
	vp_cover("done");
}
HARNESS(c11_hasShear)
{
	Cell* c = mk(); Matrix3r H = mat("H"); int i = vp_choice("i", 3), j = vp_choice("j", 3);
	for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) if (a != b && !(a == i && b == j)) H(a, b) = 0;
	vp_assume(det(H) != 0); c->hSize = H; c->velGrad = Id();
	c->integrateAndUpdate(0);
	if (i == j) vp_check(!c->hasShear(), "a diagonal cell is not sheared"); else vp_check(c->hasShear() == (H(i, j) != 0), "sheared iff some off-diagonal component is nonzero");
	vp_cover("done");
}
// position/velocity across periods
HARNESS(c11_shift)
{
	Cell* c = mk(); Matrix3r H = mat("H"), G = mat("G"); c->hSize = H; c->velGrad = G; Real dt = vp_real("dt"); c->trsf = Id();
	Matrix3r A = Id() + dt * G, B = mul(G, H); B = H + dt * B; vp_assume(det(B) != 0); vp_assume(det(A) != 0);
	c->integrateAndUpdate(dt);
	Vector3i n(vp_int("n", -1000000, 1000000), vp_int("n", -1000000, 1000000), vp_int("n", -1000000, 1000000));
	Vector3r p = c->intrShiftPos(n), v = c->intrShiftVel(n); Matrix3r GH = mul(G, H);
	for (int i = 0; i < 3; i++) {
		vp_eq(p[i], B(i, 0) * n[0] + B(i, 1) * n[1] + B(i, 2) * n[2], "image offset = current base vectors x period");
		vp_eq(v[i], GH(i, 0) * n[0] + GH(i, 1) * n[1] + GH(i, 2) * n[2], "image velocity = velocity gradient x previous base vectors x period");
		vp_eq(p[i], H(i, 0) * n[0] + H(i, 1) * n[1] + H(i, 2) * n[2] + dt * v[i], "image offset moves with the image velocity");
	}
	vp_cover("done");
}
HARNESS(c11_fluctuation)
{
	Cell* c = mk(); c->hSize = mat("H"); c->velGrad = mat("G"); Matrix3r P = mat("P"); Vector3r x = vpVec("x"), v = vpVec("v");
	Vector3r f = c->bodyFluctuationVel(x, v, P);
	for (int i = 0; i < 3; i++) vp_eq(f[i] + P(i, 0) * x[0] + P(i, 1) * x[1] + P(i, 2) * x[2], v[i], "velocity = mean field + fluctuation");
	vp_cover("done");
}
// wrapping (coordinates whose period count fits an int)
HARNESS(c11_wrapNum)
{
	Real x = vp_real("x"), s = vp_pos("s"); vp_assume(x <= 1e9 * s && -1e9 * s <= x); int p = vp_int("p0", -5, 5);
	Real a = Cell::wrapNum(x, s), b = Cell::wrapNum(x, s, p);
	vp_le(0, a, "wrapped coordinate is in [0,size)"); vp_lt(a, s, "wrapped coordinate is in [0,size)");
	vp_eq(a, b, "both overloads agree"); vp_eq(b + p * s, x, "wrapped + period x size = original");
	vp_cover("done");
}
HARNESS(c11_wrapPt)
{
	Cell* c = mk(); for (int k = 0; k < 3; k++) c->_size[k] = vp_pos("s"); Vector3r x = vpVec("x"); Vector3i n(7, 7, 7);
	for (int k = 0; k < 3; k++) vp_assume(x[k] <= 1e9 * c->_size[k] && -1e9 * c->_size[k] <= x[k]);
	bool py = vp_bool("py"); Vector3r a = py ? c->wrapPt_py(x) : c->wrapPt(x), b = c->wrapPt(x, n);
	for (int k = 0; k < 3; k++) {
		vp_le(0, a[k], "wrapped point is in the cell"); vp_lt(a[k], c->_size[k], "wrapped point is in the cell");
		vp_eq(a[k], b[k], "both overloads agree"); vp_eq(b[k] + n[k] * c->_size[k], x[k], "wrapped + period x size = original");
	}
	vp_cover("done");
}
// @opts time=200
HARNESS(c11_wrapSheared)
{
	// base vectors = shear * sizes, with unshear its inverse: the state c11_caches establishes
	Cell* c = mk(); Matrix3r S = mat("S"); Vector3r z(vp_pos("s"), vp_pos("s"), vp_pos("s")); Real D = det(S); vp_assume(D != 0);
	c->_shearTrsf = S; Matrix3r I; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { int a = (j + 1) % 3, b = (j + 2) % 3, e = (i + 1) % 3, f = (i + 2) % 3; I(i, j) = (S(a, e) * S(b, f) - S(a, f) * S(b, e)) / D; }
	c->_unshearTrsf = I; c->_size = z; for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) c->hSize(i, k) = S(i, k) * z[k];
	Vector3r u = vpVec("u"), x; // unsheared coordinates arbitrary
	for (int k = 0; k < 3; k++) { vp_assume(u[k] <= 1e9 * z[k] && -1e9 * z[k] <= u[k]); x[k] = S(k, 0) * u[0] + S(k, 1) * u[1] + S(k, 2) * u[2]; }
	same(c->unshearPt(x), u, "unsheared coordinates"); same(c->shearPt(u), x, "sheared coordinates");
	Vector3i n(7, 7, 7); bool py = vp_bool("py"); Vector3r a = py ? c->wrapShearedPt_py(x) : c->wrapShearedPt(x), b = c->wrapShearedPt(x, n), v = c->unshearPt(b), q = c->wrapPt(c->unshearPt(x));
	for (int k = 0; k < 3; k++) {
		vp_eq(a[k], b[k], "both overloads agree");
		vp_eq(b[k] + c->hSize(k, 0) * n[0] + c->hSize(k, 1) * n[1] + c->hSize(k, 2) * n[2], x[k], "wrapped + base vectors x period = original");
		vp_eq(v[k], q[k], "unsheared coordinates are those of the wrapped unsheared point"); vp_le(0, q[k], "wrapped point is in the cell"); vp_lt(q[k], z[k], "wrapped point is in the cell");
	}
	vp_cover("done");
}
// setters
// @opts time=200
HARNESS(c11_setBox)
{
	Cell* c = mk(); c->hSize = mat("H0"); c->trsf = mat("F0"); c->velGrad = mat("G"); Matrix3r G = c->velGrad; Vector3r z(vp_pos("s"), vp_pos("s"), vp_pos("s"));
	if (vp_bool("three")) c->setBox3(z[0], z[1], z[2]); else c->setBox(z);
	Matrix3r D = Id(); for (int k = 0; k < 3; k++) D(k, k) = z[k];
	same(c->hSize, D, "box cell"); same(c->getHSize(), D, "box cell"); same(c->refHSize, D, "reference configuration"); same(c->trsf, Id(), "deformation is reset"); same(c->velGrad, G, "velocity gradient is kept");
	same(c->getSize(), z, "size of the box"); same(c->getSize_copy(), z, "size of the box"); same(c->getRefSize(), z, "size of the undeformed box"); same(c->getShearTrsf(), Id(), "no shear"); same(c->getUnshearTrsf(), Id(), "no shear"); vp_check(!c->hasShear(), "no shear");
	vp_eq(c->getVolume(), z[0] * z[1] * z[2], "volume");
	vp_cover("done");
}
HARNESS(c11_setHSize)
{
	Cell* c = mk(); Matrix3r H = mat("H"), F = mat("F"); vp_assume(det(H) != 0); vp_assume(det(F) != 0); c->trsf = F; c->velGrad = mat("G");
	c->setHSize(H);
	same(c->hSize, H, "base vectors as assigned"); same(c->refHSize, H, "reference configuration"); same(c->trsf, F, "assigning the base vectors keeps the deformation gradient");
	same(mul(F, c->getHSize0()), H, "F x undeformed base vectors = base vectors"); vp_eq(c->getVolume(), det(H), "volume");
	for (int k = 0; k < 3; k++) vp_eq(c->getSize()[k] * c->getSize()[k], H.col(k).squaredNorm(), "sizes follow");
	vp_cover("done");
}
HARNESS(c11_setTrsf)
{
	Cell* c = mk(); Matrix3r H = mat("H"), F = mat("F"), G = mat("G"), R = mat("R"); vp_assume(det(H) != 0); vp_assume(det(F) != 0); c->trsf = mat("F0"); c->velGrad = G; c->hSize = H; c->refHSize = R;
	c->setTrsf(F);
	same(c->getTrsf(), F, "deformation gradient as assigned"); same(c->getDefGrad(), F, "deformation gradient as assigned"); same(c->hSize, H, "assigning the deformation gradient keeps the base vectors"); same(c->velGrad, G, "velocity gradient is kept");
	same(mul(F, c->getHSize0()), H, "F x undeformed base vectors = base vectors");
	vp_cover("done");
}
// @opts time=200
HARNESS(c11_setSize)
{
	Cell* c = mk(); Matrix3r H = mat("H"); vp_assume(det(H) != 0); c->hSize = H; c->velGrad = mat("G"); c->trsf = Id(); Vector3r z(vp_pos("s"), vp_pos("s"), vp_pos("s"));
	c->setSize(z);
	for (int k = 0; k < 3; k++) {
		Vector3r a = c->hSize.col(k), b = H.col(k), x = a.cross(b);
		vp_eq(a.squaredNorm(), z[k] * z[k], "base vector has the assigned length"); for (int i = 0; i < 3; i++) vp_eq(x[i], 0, "orientation is kept"); vp_lt(0, a.dot(b), "orientation is kept");
		vp_eq(c->getSize()[k], z[k], "size as assigned");
	}
	same(c->refHSize, c->hSize, "reference configuration"); same(c->trsf, Id(), "deformation gradient is kept");
	vp_cover("done");
}
HARNESS(c11_setVelGrad)
{
	Cell* c = mk(); Matrix3r G = mat("G"), N = mat("N"), H = mat("H"); c->velGrad = G; c->hSize = H; c->nextVelGrad = mat("o");
	c->setVelGrad(N);
	same(c->getVelGrad(), G, "assignment of the velocity gradient is deferred"); same(c->nextVelGrad, N, "and takes effect at the next step"); vp_check(c->velGradChanged, "and takes effect at the next step"); same(c->hSize, H, "frame");
	vp_cover("done");
}
// strain measures
HARNESS(c11_strain)
{
	Cell* c = mk(); Matrix3r F = mat("F"), G = mat("G"); c->trsf = F; c->velGrad = G;
	same(c->getSmallStrain(), 0.5 * (F + tr(F)) - Id(), "small strain"); Matrix3r C = mul(tr(F), F), b = mul(F, tr(F));
	same(c->getRCauchyGreenDef(), C, "right Cauchy-Green"); same(c->getLCauchyGreenDef(), b, "left Cauchy-Green"); same(c->getLagrangianStrain(), 0.5 * (C - Id()), "Lagrangian strain");
	Vector3r x = vpVec("x"), w = c->getSpin(), wx = w.cross(x);
	for (int i = 0; i < 3; i++) vp_eq(wx[i], 0.5 * ((G(i, 0) - G(0, i)) * x[0] + (G(i, 1) - G(1, i)) * x[1] + (G(i, 2) - G(2, i)) * x[2]), "spin x r = skew part of the velocity gradient applied to r");
	vp_cover("done");
}
// @opts time=200
HARNESS(c11_almansi)
{
	Cell* c = mk(); Matrix3r F = mat("F"); vp_assume(det(F) != 0); c->trsf = F;
	Matrix3r e = c->getEulerianAlmansiStrain(), b = mul(F, tr(F)); same(mul(Id() - 2 * e, b), Id(), "(I-2e) b = I");
	vp_cover("done");
}
// polar decomposition F = R U, given a singular value decomposition (contract assumed for Eigen's solver: M = A diag(s) B^T, A and B orthogonal, s>=0)
static Matrix3r svdA, svdB; static Vector3r svdS; static Matrix3r svdM;
static Matrix3r orth(const char* n) { Matrix3r m = vpQuat(n).toRotationMatrix(); if (vp_bool("mirror")) m = -m; return m; }
namespace Eigen { template <> JacobiSVD<Matrix3r>& JacobiSVD<Matrix3r>::compute(const Matrix3r& m, unsigned)
{
	same(m, svdM, "decomposition of the deformation gradient"); m_isInitialized = true; m_computeFullU = m_computeFullV = true; m_matrixU = svdA; m_matrixV = svdB; m_singularValues = svdS; return *this;
} }
// @opts time=300
HARNESS(c11_polar)
{
	svdA = orth("A"); svdB = orth("B"); svdS = Vector3r(vp_nonneg("s"), vp_nonneg("s"), vp_nonneg("s")); Matrix3r D = Id(); for (int k = 0; k < 3; k++) D(k, k) = svdS[k];
	Cell* c = mk(); Matrix3r F = mul(mul(svdA, D), tr(svdB)); svdM = F; c->trsf = F;
	Matrix3r R, U; c->computePolarDecOfDefGrad(R, U);
	same(mul(R, U), F, "F=R U"); same(mul(tr(R), R), Id(), "R is orthogonal"); Vector3r y = vpVec("y"); Real e = 0; for (int k = 0; k < 3; k++) { e += y[k] * svdS[k] * y[k]; } vp_eq((svdB * y).dot(U * (svdB * y)), e, "U is positive"); vp_le(0, e, "U is positive");
	same(c->getRotation(), R, "rotation"); same(c->getLeftStretch(), U, "stretch U"); same(c->getRightStretch(), mul(F, tr(R)), "stretch V=F R^T");
	same(U, tr(U), "U is symmetric");
	vp_cover("done");
}
HARNESS(c11_volume)
{
	Cell* c = mk(); Matrix3r H = mat("H"); c->hSize = H; vp_eq(c->getVolume(), det(H), "volume is the determinant of the base vectors"); same(c->getHSize(), H, "base vectors");
	vp_cover("done");
}
