// Reference semantics of FastMarchingMethod (C07-C12).
#include <cstdlib>
#include <cmath>
#include <vector>
#include "Common.h"
#include "FastMarchingMethod.h"
#include "Heap.h"
#include "Mesh.h"
namespace slsm { namespace spec {
typedef FastMarchingMethod FMM;

void FMM_ctor(FMM& self, const Mesh& mesh, bool isTest)
{
    self.isTest = isTest;
    self.outOfBounds = mesh.nNodes;
    self.heap = nullptr;
    self.isVelocity = false;
    self.signedDistance = nullptr;
    self.velocity = nullptr;
    self.heapPtr.resize(mesh.nNodes);
    self.nodeStatus.resize(mesh.nNodes);
    self.signedDistanceCopy.resize(mesh.nNodes);
}
// a march starts from an undetermined status for every node that is not masked, and from an empty queue
void FMM_march(FMM& self, std::vector<double>& sd)
{
    self.signedDistance = &sd;
    self.isVelocity = false;
    self.initialiseFrozen();
    self.initialiseHeap();
    self.initialiseTrial();
    self.solve();
}
void FMM_marchVelocity(FMM& self, std::vector<double>& sd, std::vector<double>& vel)
{
    self.signedDistance = &sd;
    self.velocity = &vel;
    self.isVelocity = true;
    self.initialiseFrozen();
    self.initialiseHeap();
    self.initialiseTrial();
    self.solve();
    sd = self.signedDistanceCopy;
}
void FMM_initialiseFrozen(FMM& self)
{
    std::vector<double>& sd = *self.signedDistance;
    unsigned int nFrozen = 0;
    for (unsigned int i=0;i<self.mesh.nNodes;i++)
    {
        self.signedDistanceCopy[i] = sd[i];
        if (self.nodeStatus[i] == FMM_NodeStatus::MASKED) continue;
        self.nodeStatus[i] = FMM_NodeStatus::NONE;
        if (sd[i] == 0)
        {
            self.nodeStatus[i] = FMM_NodeStatus::FROZEN;
            nFrozen++;
        }
    }
    for (unsigned int i=0;i<self.mesh.nNodes;i++)
    {
        if (self.nodeStatus[i] != FMM_NodeStatus::NONE) continue;
        double s = self.signedDistanceCopy[i];
        double nearest[2] = {0, 0};
        bool border = false;
        for (unsigned int j=0;j<4;j++)
        {
            unsigned int n = self.mesh.nodes[i].neighbours[j];
            if (n == self.outOfBounds) continue;
            double t = self.signedDistanceCopy[n];
            if (s*t < 0)
            {
                border = true;
                double d = s / (s - t);
                unsigned int axis = j/2;
                if (nearest[axis] == 0 || d < nearest[axis]) nearest[axis] = d;
            }
        }
        if (!border) continue;
        double sum = 0;
        if (nearest[0] > 0) sum += 1.0/(nearest[0]*nearest[0]);
        if (nearest[1] > 0) sum += 1.0/(nearest[1]*nearest[1]);
        double len = sqrt(1.0/sum);
        sd[i] = (s < 0) ? -len : len;
        self.nodeStatus[i] = FMM_NodeStatus::FROZEN;
        nFrozen++;
    }
    if (!(nFrozen > 0)) std::exit(EXIT_FAILURE);
}
void FMM_initialiseTrial(FMM& self)
{
    for (unsigned int i=0;i<self.mesh.nNodes;i++)
    {
        if (self.nodeStatus[i] != FMM_NodeStatus::NONE) continue;
        for (unsigned int j=0;j<4;j++)
        {
            unsigned int n = self.mesh.nodes[i].neighbours[j];
            if (n == self.outOfBounds) continue;
            if (self.nodeStatus[n] != FMM_NodeStatus::FROZEN) continue;
            if (self.nodeStatus[i] != FMM_NodeStatus::NONE) continue;
            if (self.isVelocity && !self.mesh.nodes[i].isActive) continue;
            self.nodeStatus[i] = FMM_NodeStatus::TRIAL;
            double d = self.updateNode(i);
            (*self.signedDistance)[i] = d;
            self.heapPtr[i] = self.heap->push(i, std::abs(d));
        }
    }
}
void FMM_solve(FMM& self)
{
    std::vector<unsigned int> batch(self.mesh.nNodes);
    while (!self.heap->empty())
    {
        unsigned int node, nFrozen = 0;
        double value;
        self.heap->pop(node, value);
        self.nodeStatus[node] = FMM_NodeStatus::FROZEN;
        if (self.isVelocity) self.finaliseVelocity(node);
        batch[nFrozen] = node;
        nFrozen++;
        while (!self.heap->empty() && value == self.heap->peek())
        {
            unsigned int other;
            double v;
            self.heap->pop(other, v);
            self.nodeStatus[other] = FMM_NodeStatus::FROZEN;
            if (self.isVelocity) self.finaliseVelocity(other);
            batch[nFrozen] = other;
            nFrozen++;
        }
        for (unsigned int i=0;i<nFrozen;i++)
        {
            for (unsigned int j=0;j<4;j++)
            {
                unsigned int n = self.mesh.nodes[batch[i]].neighbours[j];
                if (n == self.outOfBounds) continue;
                if (self.nodeStatus[n] == FMM_NodeStatus::FROZEN) continue;
                double d = self.updateNode(n);
                (*self.signedDistance)[n] = d;
                if (self.nodeStatus[n] == FMM_NodeStatus::TRIAL) self.heap->set(self.heapPtr[n], std::abs(d));
                else if (self.nodeStatus[n] == FMM_NodeStatus::NONE && (!self.isVelocity || self.mesh.nodes[n].isActive))
                {
                    self.nodeStatus[n] = FMM_NodeStatus::TRIAL;
                    self.heapPtr[n] = self.heap->push(n, std::abs(d));
                }
                unsigned int m = self.mesh.nodes[n].neighbours[j];
                if (m == self.outOfBounds) continue;
                if (self.nodeStatus[m] != FMM_NodeStatus::TRIAL) continue;
                double e = self.updateNode(m);
                (*self.signedDistance)[m] = e;
                self.heap->set(self.heapPtr[m], std::abs(e));
            }
        }
    }
}
double FMM_updateNode(FMM& self, unsigned int node)
{
    std::vector<double>& sd = *self.signedDistance;
    double a = 0, b = 0, c = 0;
    for (unsigned int axis=0;axis<2;axis++)
    {
        double near = self.maxDouble, beyond = self.maxDouble;
        for (unsigned int side=0;side<2;side++)
        {
            unsigned int dir = 2*axis + side;
            unsigned int n = self.mesh.nodes[node].neighbours[dir];
            if (n == self.outOfBounds || self.nodeStatus[n] != FMM_NodeStatus::FROZEN) continue;
            if (!(std::abs(sd[n]) < std::abs(near))) continue;
            near = sd[n];
            beyond = self.maxDouble;
            unsigned int m = self.mesh.nodes[n].neighbours[dir];
            if (m == self.outOfBounds || self.nodeStatus[m] != FMM_NodeStatus::FROZEN) continue;
            if (std::abs(sd[m]) <= std::abs(near)) beyond = sd[m];
        }
        if (beyond < self.maxDouble)
        {
            double t = (1.0/3.0)*(4*near - beyond);
            a += 9.0/4.0; b -= 2*(9.0/4.0)*t; c += (9.0/4.0)*t*t;
        }
        else if (near < self.maxDouble)
        {
            a += 1; b -= 2*near; c += near*near;
        }
    }
    c -= 1;
    return self.solveQuadratic(node, a, b, c);
}
double FMM_solveQuadratic(const FMM& self, unsigned int node, const double& a, const double& b, const double& c)
{
    double disc = b*b - 4*a*c;
    if (!(disc > 0)) return (*self.signedDistance)[node];
    double root = sqrt(disc);
    if (self.signedDistanceCopy[node] > self.doubleEpsilon) return (-b + root)/(2.0*a);
    return (-b - root)/(2.0*a);
}
void FMM_finaliseVelocity(FMM& self, unsigned int node)
{
    const std::vector<double>& sd = *self.signedDistance;
    double num = 0, den = 0;
    for (unsigned int axis=0;axis<2;axis++)
    {
        double front = 0, w = 0, v = 0;
        bool found = false;
        for (unsigned int side=0;side<2;side++)
        {
            unsigned int n = self.mesh.nodes[node].neighbours[2*axis+side];
            if (n == self.outOfBounds || self.nodeStatus[n] != FMM_NodeStatus::FROZEN) continue;
            double d = std::abs(sd[n]);
            if (found && !(front > d)) continue;
            found = true;
            front = d;
            w = std::abs(sd[node] - sd[n]);
            v = (*self.velocity)[n];
        }
        num += w*v; den += w;
    }
    if (den == 0) std::exit(EXIT_FAILURE);
    (*self.velocity)[node] = num/den;
}
void FMM_initialiseHeap(FMM& self)
{
    unsigned int n = 0;
    for (unsigned int i=0;i<self.mesh.nNodes;i++)
        if (self.nodeStatus[i] == FMM_NodeStatus::NONE) n++;
    delete self.heap;
    self.heap = new Heap(n, self.isTest);
}
}}
