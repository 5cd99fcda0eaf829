// Reference semantics of Optimise (C37-C40).
#include <algorithm>
#include <cstdlib>
#include <cmath>
#include <limits>
#include <numeric>
#include <vector>
#include "Boundary.h"
#include "Optimise.h"
namespace slsm { namespace spec {

void O_ctor(Optimise& self, std::vector<BoundaryPoint>& points, std::vector<double> distances, std::vector<double>& lambdas,
    double& timeStep, double maxDisplacement, bool isMax, const std::vector<bool>& isEquality, nlopt::algorithm algorithm)
{
    self.nPoints = 0;
    self.constraintDistances = distances;
    self.maxDisplacement = maxDisplacement;
    self.isMax = isMax;
    self.isEquality = isEquality;
    self.algorithm = algorithm;
    self.returnCode = static_cast<nlopt::result>(0);
    if (!(maxDisplacement > 0 && maxDisplacement < 1)) std::exit(EXIT_FAILURE);
    if (points.size() == 0) std::exit(EXIT_FAILURE);
    self.nConstraints = lambdas.size() - 1;
    self.nConstraintsInitial = self.nConstraints;
    if (self.nConstraints != distances.size()) std::exit(EXIT_FAILURE);
    if (isEquality.size() != 0 && isEquality.size() != self.nConstraints) std::exit(EXIT_FAILURE);
    self.negativeLambdaLimits.resize(self.nConstraints + 1);
    self.positiveLambdaLimits.resize(self.nConstraints + 1);
    self.scaleFactors.resize(self.nConstraints + 1);
    self.constraintDistancesScaled = distances;
    if (isEquality.size() == 0) self.isEquality.resize(self.nConstraints, false);
    self.constraintDistancesInitial = distances;
    self.isEqualityInitial = self.isEquality;
}
void O_computeScaleFactors(Optimise& self)
{
    for (unsigned int i=0;i<self.nConstraints+1;i++)
    {
        double maxSens = 0;
        for (unsigned int j=0;j<self.nPoints;j++)
        {
            if (self.boundaryPoints[j].isFixed) continue;
            double sens = std::abs(self.boundaryPoints[j].sensitivities[i]);
            if (sens > maxSens) maxSens = sens;
        }
        self.scaleFactors[i] = 1.0 / maxSens;
    }
    std::vector<double> gradient(self.nConstraints + 1);
    for (unsigned int i=0;i<self.nConstraints+1;i++)
    {
        self.computeGradients(gradient, i);
        self.scaleFactors[i] *= 1.0 / std::abs(gradient[i]);
    }
}
void O_computeLambdaLimits(Optimise& self)
{
    for (unsigned int i=0;i<self.nConstraints+1;i++)
    {
        double maxSens = std::numeric_limits<double>::min();
        for (unsigned int j=0;j<self.boundaryPoints.size();j++)
        {
            if (self.boundaryPoints[j].isFixed) continue;
            double sens = std::abs(self.boundaryPoints[j].sensitivities[self.indexMap[i]]);
            if (sens > maxSens) maxSens = sens;
        }
        self.negativeLambdaLimits[i] = -self.maxDisplacement / maxSens / self.scaleFactors[i];
        self.positiveLambdaLimits[i] =  self.maxDisplacement / maxSens / self.scaleFactors[i];
        while (self.lambdas[i] < self.negativeLambdaLimits[i]) self.lambdas[i] *= 0.9;
        while (self.lambdas[i] > self.positiveLambdaLimits[i]) self.lambdas[i] *= 0.9;
    }
}
void O_computeDisplacements(Optimise& self, const std::vector<double>& lambda)
{
    for (unsigned int i=0;i<self.nPoints;i++)
    {
        if (self.boundaryPoints[i].isFixed) continue;
        self.displacements[i] = self.scaleFactors[0] * lambda[0] * self.boundaryPoints[i].sensitivities[0];
        for (unsigned int j=1;j<self.nConstraints+1;j++)
            self.displacements[i] += self.scaleFactors[j] * lambda[j] * self.boundaryPoints[i].sensitivities[self.indexMap[j]];
        if (self.boundaryPoints[i].isDomain && self.displacements[i] < self.boundaryPoints[i].negativeLimit)
            self.displacements[i] = self.boundaryPoints[i].negativeLimit;
    }
}
double O_computeFunction(Optimise& self, unsigned int index)
{
    double func = 0;
    for (unsigned int i=0;i<self.nPoints;i++)
    {
        if (self.boundaryPoints[i].isFixed) continue;
        func += self.scaleFactors[index] * self.displacements[i] * self.boundaryPoints[i].sensitivities[self.indexMap[index]] * self.boundaryPoints[i].length;
    }
    if (index != 0) return func - self.scaleFactors[index] * self.constraintDistancesScaled[index - 1];
    return func;
}
void O_computeGradients(Optimise& self, std::vector<double>& gradient, unsigned int index)
{
    for (unsigned int i=0;i<self.nConstraints+1;i++) gradient[i] = 0;
    for (unsigned int i=0;i<self.nPoints;i++)
    {
        if (self.boundaryPoints[i].isFixed) continue;
        for (unsigned int j=0;j<self.nConstraints+1;j++)
            gradient[j] += self.boundaryPoints[i].sensitivities[self.indexMap[index]] * self.boundaryPoints[i].sensitivities[self.indexMap[j]]
                * self.boundaryPoints[i].length * self.scaleFactors[index] * self.scaleFactors[j];
    }
}
double O_rescaleDisplacements(Optimise& self)
{
    double maxDisp = 0;
    double scale;
    for (unsigned int i=0;i<self.nPoints;i++)
    {
        if (self.boundaryPoints[i].isFixed) continue;
        double disp = std::abs(self.displacements[i]);
        if (disp > self.maxDisplacement && disp > maxDisp)
        {
            maxDisp = disp;
            scale = self.maxDisplacement / disp;
        }
    }
    if (maxDisp == 0) return 1;
    for (unsigned int i=0;i<self.nConstraints+1;i++) self.lambdas[i] *= scale;
    self.computeDisplacements(self.lambdas);
    return scale;
}
double O_callback(Optimise& self, const std::vector<double>& lambda, std::vector<double>& gradient, unsigned int index)
{
    self.computeDisplacements(lambda);
    if (!gradient.empty()) gradient = self.gradients[index];
    return self.computeFunction(index);
}
double O_callbackWrapper(const std::vector<double>& lambda, std::vector<double>& gradient, void* data)
{
    NLoptWrapper* w = reinterpret_cast<NLoptWrapper*>(data);
    return reinterpret_cast<Optimise*>(w->callback)->callback(lambda, gradient, w->index);
}
void O_computeConstraintDistances(Optimise& self, unsigned int nCurrentConstraints)
{
    std::vector<bool> isActive(nCurrentConstraints);
    unsigned int nDim = nCurrentConstraints + 1;
    unsigned int nVertices = std::pow(2, nDim);
    std::vector<unsigned int> temp(nVertices);
    std::vector<std::vector<bool> > vertices(nVertices);
    for (unsigned int i=0;i<nVertices;i++)
    {
        temp[i] = i;
        vertices[i].resize(nDim);
    }
    for (unsigned int i=0;i<nVertices;i++)
        for (int j=nDim-1;j>=0;j--)
            vertices[i][j] = ((temp[i] >> j) & 1) != 0;
    for (unsigned int i=0;i<nCurrentConstraints;i++)
    {
        isActive[i] = true;
        std::vector<double> constraintChanges(nVertices);
        for (unsigned int j=0;j<nVertices;j++)
        {
            std::vector<double> lambda(nDim);
            for (unsigned int k=0;k<nDim;k++)
                lambda[k] = vertices[j][k] ? self.positiveLambdaLimits[k] : self.negativeLambdaLimits[k];
            self.computeDisplacements(lambda);
            double constraintChange = 0;
            for (unsigned int k=0;k<self.nPoints;k++)
            {
                if (self.boundaryPoints[k].isFixed) continue;
                constraintChange += self.displacements[k] * self.boundaryPoints[k].sensitivities[self.indexMap[i+1]] * self.boundaryPoints[k].length;
            }
            constraintChanges[j] = constraintChange;
        }
        std::sort(constraintChanges.begin(), constraintChanges.end());
        double min = 0.99 * constraintChanges[0];
        double max = 0.99 * constraintChanges.back();
        if (self.constraintDistances[i] < 0)
        {
            if (self.constraintDistances[i] < min) self.constraintDistancesScaled[i] = min;
        }
        else if (self.constraintDistances[i] > max)
        {
            if (self.isEquality[i]) self.constraintDistancesScaled[i] = max;
            else isActive[i] = false;
        }
    }
    unsigned int nActive = 0;
    for (unsigned int i=0;i<nCurrentConstraints;i++)
    {
        if (!isActive[i]) continue;
        self.lambdas[nActive+1] = self.lambdas[i+1];
        self.scaleFactors[nActive+1] = self.scaleFactors[i+1];
        self.negativeLambdaLimits[nActive+1] = self.negativeLambdaLimits[i+1];
        self.positiveLambdaLimits[nActive+1] = self.positiveLambdaLimits[i+1];
        self.indexMap[nActive+1] = self.indexMap[i+1];
        self.constraintDistances[nActive] = self.constraintDistances[i];
        self.constraintDistancesScaled[nActive] = self.constraintDistancesScaled[i];
        self.isEquality[nActive] = self.isEquality[i];
        nActive++;
    }
    if (nActive < self.nConstraints)
    {
        self.lambdas.resize(nActive + 1);
        self.scaleFactors.resize(nActive + 1);
        self.negativeLambdaLimits.resize(nActive + 1);
        self.positiveLambdaLimits.resize(nActive + 1);
        self.indexMap.resize(nActive + 1);
        self.constraintDistances.resize(nActive);
        self.constraintDistancesScaled.resize(nActive);
        self.isEquality.resize(nActive);
        self.nConstraints = nActive;
    }
    if (nActive > 0 && nActive < nCurrentConstraints) self.computeConstraintDistances(self.nConstraints);
}
double O_solve(Optimise& self)
{
    self.nPoints = self.boundaryPoints.size();
    self.displacements = std::vector<double>(self.nPoints, 0.0);
    self.nConstraints = self.nConstraintsInitial;
    self.constraintDistances = self.constraintDistancesInitial;
    self.constraintDistancesScaled = self.constraintDistancesInitial;
    self.isEquality = self.isEqualityInitial;
    self.negativeLambdaLimits.resize(self.nConstraints + 1);
    self.positiveLambdaLimits.resize(self.nConstraints + 1);
    self.scaleFactors.resize(self.nConstraints + 1);
    self.indexMap.resize(self.nConstraints + 1);
    std::iota(self.indexMap.begin(), self.indexMap.end(), 0);
    self.computeScaleFactors();
    for (unsigned int i=0;i<self.nConstraints+1;i++) self.lambdas[i] /= self.scaleFactors[i];
    self.computeLambdaLimits();
    if (self.nConstraints > 0) self.computeConstraintDistances(self.nConstraints);
    self.gradients.resize(self.nConstraints + 1);
    for (unsigned int i=0;i<self.nConstraints+1;i++)
    {
        std::vector<double> gradient(self.nConstraints + 1);
        self.computeGradients(gradient, i);
        self.gradients[i] = gradient;
    }
    NLoptWrapper objectiveWrapper;
    objectiveWrapper.index = 0;
    objectiveWrapper.callback = &self;
    std::vector<NLoptWrapper> constraintWrappers(self.nConstraints);
    for (unsigned int i=0;i<self.nConstraints;i++)
    {
        constraintWrappers[i].index = i + 1;
        constraintWrappers[i].callback = &self;
    }
    nlopt::opt opt(self.algorithm, 1 + self.nConstraints);
    opt.set_lower_bounds(self.negativeLambdaLimits);
    opt.set_upper_bounds(self.positiveLambdaLimits);
    opt.set_maxeval(500);
    opt.set_xtol_rel(1e-8);
    if (self.isMax) opt.set_max_objective(callbackWrapper, &objectiveWrapper);
    else opt.set_min_objective(callbackWrapper, &objectiveWrapper);
    for (unsigned int i=0;i<self.nConstraints;i++)
    {
        if (self.isEquality[i]) opt.add_equality_constraint(callbackWrapper, &constraintWrappers[i], 1e-8);
        else opt.add_inequality_constraint(callbackWrapper, &constraintWrappers[i], 1e-8);
    }
    double optObjective = 0;
    bool isAttempted = false;
    while (!isAttempted || self.returnCode < 0)
    {
        isAttempted = true;
        try
        {
            self.returnCode = opt.optimize(self.lambdas, optObjective);
        }
        catch (nlopt::roundoff_limited)
        {
            self.returnCode = nlopt::ROUNDOFF_LIMITED;
            for (unsigned int i=0;i<self.nConstraints;i++) self.constraintDistancesScaled[i] *= 0.7;
        }
        catch (std::invalid_argument)
        {
        }
    }
    self.computeDisplacements(self.lambdas);
    optObjective *= self.rescaleDisplacements();
    for (unsigned int i=0;i<self.nConstraints+1;i++) self.lambdas[i] *= self.scaleFactors[i];
    self.timeStep = std::abs(self.lambdas[0]);
    for (unsigned int i=0;i<self.nPoints;i++) self.boundaryPoints[i].velocity = self.displacements[i] / self.timeStep;
    if (self.nConstraints < self.nConstraintsInitial)
    {
        self.lambdas.resize(1 + self.nConstraintsInitial);
        for (unsigned int i=self.nConstraints;i>0;i--)
        {
            if (self.indexMap[i] != i)
            {
                self.lambdas[self.indexMap[i]] = self.lambdas[i];
                self.lambdas[i] = 0;
            }
        }
    }
    return optObjective / self.scaleFactors[0];
}
}}
#ifdef PYBIND
namespace slsm { namespace spec {
void O_ctorPy(Optimise& self, std::vector<BoundaryPoint>& points, std::vector<double> distances, std::vector<double>& lambdas,
    MutableFloat& timeStep, double maxDisplacement, bool isMax, const std::vector<bool>& isEquality)
{
    O_ctor(self, points, distances, lambdas, timeStep.value, maxDisplacement, isMax, isEquality, nlopt::LD_SLSQP);
}
}}
#endif
