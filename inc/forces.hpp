// Force container in a synchronised state with arbitrary per-body totals (what ForceContainer::sync guarantees, property C05).
#pragma once
#include <core/ForceContainerParallel.cpp>
static void vpForces(Scene* sc, int n)
{
	ForceContainer& F = sc->forces;
	F._force.clear(); F._torque.clear(); F._move.clear(); F._rot.clear();
	for (int i = 0; i < n; i++) {
		F._force.push_back(vpVec("f")); F._torque.push_back(vpVec("t"));
		F._move.push_back(Vector3r::Zero()); F._rot.push_back(Vector3r::Zero());
	}
	F._permForce.resize(n, Vector3r::Zero()); F._permTorque.resize(n, Vector3r::Zero());
	F.size = n; F.synced = true; F.syncedSizes = true;
}
