// Common prelude of every contract file: the real /repo headers, with plugin registration (dynamic-library
// bookkeeping, boost export) neutralised.  Nothing here replaces a function whose behaviour is under contract.
#pragma once
#include <vp.h>
#include <lib/base/Math.hpp>
#include <lib/serialization/Serializable.hpp>
#include <lib/factory/ClassFactory.hpp>
// Log output and the decimal text of numbers inside messages are not under contract.
#include <boost/lexical_cast.hpp>
#undef _POOR_MANS_LOG
#define _POOR_MANS_LOG(level,msg) {}
namespace boost {
template<> inline std::string lexical_cast<std::string, int>(const int&) { return std::string("#"); }
template<> inline std::string lexical_cast<std::string, unsigned int>(const unsigned int&) { return std::string("#"); }
template<> inline std::string lexical_cast<std::string, long>(const long&) { return std::string("#"); }
template<> inline std::string lexical_cast<std::string, unsigned long>(const unsigned long&) { return std::string("#"); }
template<> inline std::string lexical_cast<std::string, double>(const double&) { return std::string("#"); }
}
// Python exposure (attribute accessors, class registration) is dropped: it is not under contract, and it is 60% of the
// compile time.  Attribute declarations, constructors, serialize() and callPostLoad() come from /repo's macros unchanged.
#undef _REGISTER_ATTRIBUTES_DEPREC
#define _REGISTER_ATTRIBUTES_DEPREC(thisClass,baseClass,attrs,deprec) _REGISTER_BOOST_ATTRIBUTES(baseClass,attrs) public: \
	virtual void callPostLoad(void){ baseClass::callPostLoad(); postLoad(*this); }
#undef _YADE_CLASS_BASE_DOC_ATTRS_DEPREC_PY
#define _YADE_CLASS_BASE_DOC_ATTRS_DEPREC_PY(thisClass,baseClass,docString,attrs,deprec,extras) \
	_REGISTER_ATTRIBUTES_DEPREC(thisClass,baseClass,attrs,deprec) REGISTER_CLASS_AND_BASE(thisClass,baseClass)
#undef _YADE_CLASS_PYCLASS_BASE_DOC_ATTRS_DEPREC_PY
#define _YADE_CLASS_PYCLASS_BASE_DOC_ATTRS_DEPREC_PY(thisClass,pyClassName,baseClass,docString,attrs,deprec,extras) \
	_REGISTER_ATTRIBUTES_DEPREC(thisClass,baseClass,attrs,deprec) REGISTER_CLASS_AND_BASE(pyClassName,baseClass)
#undef _STATCLASS_PY_REGISTER_CLASS
#define _STATCLASS_PY_REGISTER_CLASS(thisClass,baseClass,docString,attrs)
#undef YADE_PLUGIN
#define YADE_PLUGIN(x)
// (Scene.hpp additionally declares fillDefaultTagsReal: the name under which C15 compiles the real fillDefaultTags - host and user names - out of the way)
#define updateBound updateBound(); void fillDefaultTagsReal
#include <core/Scene.hpp>
#undef updateBound
#include <core/Omega.hpp>
#include <core/Body.hpp>
#include <core/Interaction.hpp>
#include <core/Clump.hpp>
#include <core/TimeStepper.hpp>
#include <lib/base/Math.cpp>
// ---- stand-ins for the plugin registry and the process-wide Omega (not under contract)
bool ClassFactory::registerFactorable(std::string, CreateFactorableFnPtr, CreateSharedFactorableFnPtr, CreatePureCustomFnPtr) { return true; }
static Scene* vpScene = 0;
static shared_ptr<Scene>* vpScenePtr = 0;
void Scene::fillDefaultTags() {}
static inline Vector3r vpVec(const char* n) { double x = vp_real(n); double y = vp_real(n); double z = vp_real(n); return Vector3r(x, y, z); }
static inline Vector3r vpUnit(const char* n) { double v[3]; vp_unit3(n, v); return Vector3r(v[0], v[1], v[2]); }
static inline Quaternionr vpQuat(const char* n) { double v[4]; vp_unit4(n, v); return Quaternionr(v[0], v[1], v[2], v[3]); }
static inline void vpEqV(const Vector3r& a, const Vector3r& b, const char* l) { vp_eq(a[0], b[0], l); vp_eq(a[1], b[1], l); vp_eq(a[2], b[2], l); }
