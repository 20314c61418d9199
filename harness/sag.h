// Cables, states and line cables built from value vectors.
#ifndef VERIF_SAG_H_
#define VERIF_SAG_H_
#include "models/sagtension/cable_elongation_model.h"
#include "models/transmissionline/line_cable.h"
#include "models/transmissionline/line_structure.h"
#include "obj.h"

// kind 0 core, 1 shell.  f: factor on strength and stiffness, lim: factor on
// the polynomial limits, mc: compression modulus (psi / 1e5), mt: factor on the
// tension modulus, al: factor on thermal expansion, sy, m: scaling of the
// polynomial axes (the physical curve does not depend on them)
CableComponent MakeComponent(int kind, double f, double lim, double mc, double mt, double al, double sy, double m);
// v: core enabled, shell enabled, core factor, shell factor, core compression
// modulus, shell compression modulus, limit factor, reference temperature,
// unit weight, diameter, rated strength, y scale, x scale
const Cable* MakeCable(const Vd& v);
const SagTensionCable* MakeSagCable(const Vd& v);
SagTensionCableComponent::PolynomialType PolyType(double d);
CableConditionType Condition(double d);
// v: temperature, type
CableState MakeState(const Vd& v);
// v: temperature, type, load
CableStretchState MakeStretch(const Vd& v);
// v: ice thickness, ice density, wind pressure, temperature
const WeatherLoadCase* MakeCase(const Vd& v);

// slots cable, geometry, creep, load, case, constraint
struct LineSpec {
  std::map<std::string, Vd> in;
  bool Has(const std::string& s) const {
    return s == "cable" || s == "geometry" || s == "creep" || s == "load" || s == "case" || s == "constraint";
  }
  LineCable* Build() const;
};
#endif
