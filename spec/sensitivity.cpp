// Reference semantics of Sensitivity (C35, C36).
#include <cstdlib>
#include <cmath>
#include <functional>
#include <vector>
#include "Boundary.h"
#include "LevelSet.h"
#include "Sensitivity.h"
namespace slsm { namespace spec {

void S_ctor(Sensitivity& self, double d) { const_cast<double&>(self.delta) = d; }
double S_computeSensitivity(const Sensitivity& self, BoundaryPoint& point, SensitivityCallback& callback)
{
    double x = point.coord.x, y = point.coord.y;
    point.coord.x = x + self.delta*point.normal.x;
    point.coord.y = y + self.delta*point.normal.y;
    double plus = callback(point);
    point.coord.x = x - self.delta*point.normal.x;
    point.coord.y = y - self.delta*point.normal.y;
    double minus = callback(point);
    point.coord.x = x;
    point.coord.y = y;
    return (plus - minus) / (2.0 * self.delta) / point.length;
}
void S_itoCorrectionNormals(const Sensitivity& self, Boundary& boundary, const LevelSet& levelSet, double temperature)
{
    if (temperature == 0) return;
    boundary.computeNormalVectors(levelSet);
    self.itoCorrection(boundary, temperature);
}
void S_itoCorrection(const Sensitivity& self, Boundary& boundary, double temperature)
{
    if (temperature == 0) return;
    SensitivityCallback callback = [&boundary](const BoundaryPoint& p) { return boundary.computePerimeter(p); };
    for (unsigned int i=0;i<boundary.points.size();i++)
        boundary.points[i].sensitivities[0] -= (temperature * self.computeSensitivity(boundary.points[i], callback)) / (2.0 * boundary.points[i].length);
}
}}
