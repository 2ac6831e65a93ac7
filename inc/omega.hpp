// Stand-in for the process-wide Omega singleton: getScene() returns the scene of the harness.
#pragma once
template<> Omega* Singleton<Omega>::self = NULL;
static shared_ptr<Scene>* vpOmegaScene = 0;
const shared_ptr<Scene>& Omega::getScene() { return *vpOmegaScene; }
