// Reference semantics of Boundary, written from the properties (C26-C34), not from the code.
#include <cstdlib>
#include <cmath>
#include <vector>
#include "Boundary.h"
#include "LevelSet.h"
#include "Mesh.h"
// Precondition of the comparison at this point (an invariant established by other properties).
void spec_assume(bool);
namespace slsm { namespace spec {

// C26: node and element classification, from the signed distance alone.
void B_computeMeshStatus(const Boundary& self, Mesh& mesh, const std::vector<double>* signedDistance)
{
    for (unsigned int i=0;i<mesh.nNodes;i++)
    {
        double s = (*signedDistance)[i];
        mesh.nodes[i].nBoundaryPoints = 0;
        mesh.nodes[i].status = (std::abs(s) < 1e-6) ? NodeStatus::BOUNDARY : ((s < 0) ? NodeStatus::OUTSIDE : NodeStatus::INSIDE);
    }
    for (unsigned int i=0;i<mesh.nElements;i++)
    {
        mesh.elements[i].nBoundarySegments = 0;
        unsigned int tallyInside = 0, tallyOutside = 0;
        for (unsigned int j=0;j<4;j++)
        {
            if (mesh.nodes[mesh.elements[i].nodes[j]].status & NodeStatus::INSIDE) tallyInside++;
            else if (mesh.nodes[mesh.elements[i].nodes[j]].status & NodeStatus::OUTSIDE) tallyOutside++;
        }
        mesh.elements[i].status = (tallyOutside == 0) ? ElementStatus::INSIDE : ((tallyInside == 0) ? ElementStatus::OUTSIDE : ElementStatus::NONE);
    }
}

// C28: location on an edge; already present among the points registered with the node?
int B_isAdded(Boundary& self, Mesh& mesh, Coord& point, const unsigned int& node, const unsigned int& edge, const double& distance)
{
    point.x = mesh.nodes[node].coord.x;
    point.y = mesh.nodes[node].coord.y;
    if (edge == 0) point.x = mesh.nodes[node].coord.x + distance;
    else if (edge == 1) point.y = mesh.nodes[node].coord.y + distance;
    else if (edge == 2) point.x = mesh.nodes[node].coord.x - distance;
    else point.y = mesh.nodes[node].coord.y - distance;
    for (unsigned int i=0;i<mesh.nodes[node].nBoundaryPoints;i++)
    {
        unsigned int index = mesh.nodes[node].boundaryPoints[i];
        if ((std::abs(point.x - self.points[index].coord.x) < 1e-6) &&
            (std::abs(point.y - self.points[index].coord.y) < 1e-6)) return index;
    }
    return -1;
}

// C30: limits and flags of a new point.
void B_initialisePoint(Boundary& self, LevelSet& levelSet, BoundaryPoint& point, const Coord& coord)
{
    point.coord.x = coord.x;
    point.coord.y = coord.y;
    point.positiveLimit = levelSet.moveLimit;
    double minBoundary = std::min(std::min(coord.x, levelSet.mesh.width - coord.x), std::min(coord.y, levelSet.mesh.height - coord.y));
    double negative = -levelSet.moveLimit;
    if (minBoundary < levelSet.moveLimit)
    {
        negative = -minBoundary;
        if (minBoundary < 1e-6) point.isDomain = true;
    }
    unsigned int node = levelSet.mesh.getClosestNode(coord);
    if (levelSet.mesh.nodes[node].isMasked)
    {
        double dx = levelSet.mesh.nodes[node].coord.x - coord.x;
        double dy = levelSet.mesh.nodes[node].coord.y - coord.y;
        if ((std::abs(dx) < 1e-6) && (std::abs(dy) < 1e-6)) point.isFixed = true;
        else
        {
            double d = sqrt(dx*dx + dy*dy);
            if (-d > negative) negative = -d;
        }
    }
    point.negativeLimit = negative;
}

// C27: Euclidean length.
double B_segmentLength(Boundary& self, const BoundarySegment& segment)
{
    double dx = self.points[segment.start].coord.x - self.points[segment.end].coord.x;
    double dy = self.points[segment.start].coord.y - self.points[segment.end].coord.y;
    return sqrt(dx*dx + dy*dy);
}

// C31: half lengths, segment lookup and neighbours; tables grow when full (C34).
void B_computePointLengths(Boundary& self)
{
    for (unsigned int i=0;i<self.nSegments;i++)
    {
        unsigned int s = self.segments[i].start, e = self.segments[i].end;
        // Both lists of a point grow together (C29, C34).
        spec_assume(self.points[s].nNeighbours == self.points[s].nSegments);
        spec_assume(self.points[e].nNeighbours == self.points[e].nSegments);
        spec_assume(self.points[s].segments.size() == self.points[s].neighbours.size());
        spec_assume(self.points[e].segments.size() == self.points[e].neighbours.size());
        spec_assume(self.points[s].nSegments <= self.points[s].segments.size());
        spec_assume(self.points[e].nSegments <= self.points[e].segments.size());
        self.points[s].length += 0.5 * self.segments[i].length;
        self.points[e].length += 0.5 * self.segments[i].length;
        if (self.points[s].nSegments == self.points[s].segments.size())
        {
            self.points[s].segments.push_back(0);
            self.points[s].neighbours.push_back(0);
        }
        self.points[s].segments[self.points[s].nSegments] = i;
        self.points[s].nSegments++;
        if (self.points[e].nSegments == self.points[e].segments.size())
        {
            self.points[e].segments.push_back(0);
            self.points[e].neighbours.push_back(0);
        }
        self.points[e].segments[self.points[e].nSegments] = i;
        self.points[e].nSegments++;
        self.points[s].neighbours[self.points[s].nNeighbours] = e;
        self.points[s].nNeighbours++;
        self.points[e].neighbours[self.points[e].nNeighbours] = s;
        self.points[e].nNeighbours++;
    }
}
double B_computePerimeter(Boundary& self, const BoundaryPoint& point)
{
    double length = 0;
    for (unsigned int i=0;i<point.nNeighbours;i++)
    {
        double dx = self.points[point.neighbours[i]].coord.x - point.coord.x;
        double dy = self.points[point.neighbours[i]].coord.y - point.coord.y;
        length += sqrt(dx*dx + dy*dy);
    }
    return length;
}

// C32: normals.
void B_computeNormalVectors(Boundary& self, const LevelSet& levelSet)
{
    std::vector<bool> isSet(self.nPoints);
    std::vector<double> weight(self.nPoints);
    for (unsigned int i=0;i<self.nPoints;i++)
    {
        isSet[i] = false;
        weight[i] = 0;
        self.points[i].normal.x = 0;
        self.points[i].normal.y = 0;
    }
    const Mesh& mesh = levelSet.mesh;
    spec_assume(mesh.width >= 1 && mesh.height >= 1);
    for (unsigned int i=0;i<levelSet.nNarrowBand;i++)
    {
        unsigned int node = levelSet.narrowBand[i];
        unsigned int x = mesh.nodes[node].coord.x, y = mesh.nodes[node].coord.y;
        if (mesh.nodes[node].nBoundaryPoints == 0) continue;
        double gradX = (x == 0) ? levelSet.signedDistance[mesh.xyToIndex[x+1][y]] - levelSet.signedDistance[mesh.xyToIndex[x][y]]
                     : (x == mesh.width) ? levelSet.signedDistance[mesh.xyToIndex[x][y]] - levelSet.signedDistance[mesh.xyToIndex[x-1][y]]
                     : 0.5*(levelSet.signedDistance[mesh.xyToIndex[x+1][y]] - levelSet.signedDistance[mesh.xyToIndex[x-1][y]]);
        double gradY = (y == 0) ? levelSet.signedDistance[mesh.xyToIndex[x][y+1]] - levelSet.signedDistance[mesh.xyToIndex[x][y]]
                     : (y == mesh.height) ? levelSet.signedDistance[mesh.xyToIndex[x][y]] - levelSet.signedDistance[mesh.xyToIndex[x][y-1]]
                     : 0.5*(levelSet.signedDistance[mesh.xyToIndex[x][y+1]] - levelSet.signedDistance[mesh.xyToIndex[x][y-1]]);
        double grad = sqrt(gradX*gradX + gradY*gradY);
        double xNormal = gradX / grad, yNormal = gradY / grad;
        for (unsigned int j=0;j<mesh.nodes[node].nBoundaryPoints;j++)
        {
            unsigned int point = mesh.nodes[node].boundaryPoints[j];
            double dx = mesh.nodes[node].coord.x - self.points[point].coord.x;
            double dy = mesh.nodes[node].coord.y - self.points[point].coord.y;
            double rSqd = dx*dx + dy*dy;
            if (rSqd < 1e-6)
            {
                self.points[point].normal.x = xNormal;
                self.points[point].normal.y = yNormal;
                weight[point] = 1.0;
                isSet[point] = true;
            }
            else if (!isSet[point])
            {
                self.points[point].normal.x += xNormal / rSqd;
                self.points[point].normal.y += yNormal / rSqd;
                weight[point] += 1.0 / rSqd;
            }
        }
    }
    for (unsigned int i=0;i<self.nPoints;i++)
    {
        if (self.points[i].isDomain) continue;
        self.points[i].normal.x /= weight[i];
        self.points[i].normal.y /= weight[i];
        double norm = sqrt(self.points[i].normal.x*self.points[i].normal.x + self.points[i].normal.y*self.points[i].normal.y);
        self.points[i].normal.x /= norm;
        self.points[i].normal.y /= norm;
    }
}

// C27-C29, C33, C34: discretisation.
unsigned int B_newPoint(Boundary& self, LevelSet& levelSet, const Coord& coord, unsigned int n)
{
    levelSet.mesh.nodes[n].boundaryPoints[levelSet.mesh.nodes[n].nBoundaryPoints] = self.nPoints;
    levelSet.mesh.nodes[n].nBoundaryPoints++;
    BoundaryPoint point;
    self.initialisePoint(levelSet, point, coord);
    self.points.push_back(point);
    self.nPoints++;
    return self.nPoints - 1;
}
unsigned int B_nodePoint(Boundary& self, LevelSet& levelSet, unsigned int n)
{
    Coord coord;
    int index = self.isAdded(levelSet.mesh, coord, n, 0, 0);
    if (index < 0) return B_newPoint(self, levelSet, coord, n);
    return index;
}
void B_addSegment(Boundary& self, LevelSet& levelSet, unsigned int i, unsigned int a, unsigned int b)
{
    BoundarySegment segment;
    segment.start = a;
    segment.end = b;
    segment.element = i;
    segment.length = self.segmentLength(segment);
    self.length += segment.length;
    levelSet.mesh.elements[i].boundarySegments[levelSet.mesh.elements[i].nBoundarySegments] = self.nSegments;
    levelSet.mesh.elements[i].nBoundarySegments++;
    self.segments.push_back(segment);
    self.nSegments++;
}
void B_discretise(Boundary& self, LevelSet& levelSet, bool isTarget)
{
    self.points.clear();
    self.segments.clear();
    self.nPoints = 0;
    self.nSegments = 0;
    self.length = 0;
    std::vector<double>* signedDistance = isTarget ? &levelSet.target : &levelSet.signedDistance;
    self.computeMeshStatus(levelSet.mesh, signedDistance);
    for (unsigned int i=0;i<levelSet.mesh.nElements;i++)
    {
        if (levelSet.mesh.elements[i].status == ElementStatus::OUTSIDE) continue;
        unsigned int nCut = 0;
        unsigned int boundaryPoints[4];
        for (unsigned int j=0;j<4;j++)
        {
            unsigned int n1 = levelSet.mesh.elements[i].nodes[j];
            unsigned int n2 = levelSet.mesh.elements[i].nodes[(j == 3) ? 0 : j + 1];
            if (!(isTarget || levelSet.mesh.nodes[n1].isActive || levelSet.mesh.nodes[n1].isMasked
                           || levelSet.mesh.nodes[n2].isActive || levelSet.mesh.nodes[n2].isMasked)) continue;
            if ((levelSet.mesh.nodes[n1].status | levelSet.mesh.nodes[n2].status) == NodeStatus::CUT)
            {
                double d = (*signedDistance)[n1] / ((*signedDistance)[n1] - (*signedDistance)[n2]);
                Coord coord;
                int index = self.isAdded(levelSet.mesh, coord, n1, j, d);
                if (index < 0)
                {
                    levelSet.mesh.nodes[n1].boundaryPoints[levelSet.mesh.nodes[n1].nBoundaryPoints] = self.nPoints;
                    levelSet.mesh.nodes[n2].boundaryPoints[levelSet.mesh.nodes[n2].nBoundaryPoints] = self.nPoints;
                    levelSet.mesh.nodes[n1].nBoundaryPoints++;
                    levelSet.mesh.nodes[n2].nBoundaryPoints++;
                    boundaryPoints[nCut] = self.nPoints;
                    BoundaryPoint point;
                    self.initialisePoint(levelSet, point, coord);
                    self.points.push_back(point);
                    self.nPoints++;
                }
                else boundaryPoints[nCut] = index;
                nCut++;
            }
            else if ((levelSet.mesh.nodes[n1].status & NodeStatus::BOUNDARY) && (levelSet.mesh.nodes[n2].status & NodeStatus::BOUNDARY))
            {
                unsigned int a = B_nodePoint(self, levelSet, n1);
                unsigned int b = B_nodePoint(self, levelSet, n2);
                B_addSegment(self, levelSet, i, a, b);
            }
        }
        if (nCut == 2) B_addSegment(self, levelSet, i, boundaryPoints[0], boundaryPoints[1]);
        else if (nCut == 1)
        {
            for (unsigned int j=0;j<4;j++)
            {
                unsigned int node = levelSet.mesh.elements[i].nodes[j];
                unsigned int after = levelSet.mesh.elements[i].nodes[(j == 3) ? 0 : j + 1];
                unsigned int before = levelSet.mesh.elements[i].nodes[(j == 0) ? 3 : j - 1];
                if (!(levelSet.mesh.nodes[node].status & NodeStatus::BOUNDARY)) continue;
                if ((levelSet.mesh.nodes[after].status & NodeStatus::OUTSIDE) || (levelSet.mesh.nodes[before].status & NodeStatus::OUTSIDE))
                    B_addSegment(self, levelSet, i, boundaryPoints[0], B_nodePoint(self, levelSet, node));
            }
        }
        else if (nCut == 4)
        {
            double lsfSum = 0;
            for (unsigned int j=0;j<4;j++) lsfSum += (*signedDistance)[levelSet.mesh.elements[i].nodes[j]];
            bool centreInside = lsfSum > 0;
            NodeStatus::NodeStatus first = levelSet.mesh.nodes[levelSet.mesh.elements[i].nodes[0]].status;
            bool firstInside = first & NodeStatus::INSIDE;
            bool firstOutside = first & NodeStatus::OUTSIDE;
            // All four edges are cut, so no corner lies on the boundary (C26).
            spec_assume(firstInside != firstOutside);
            // The first corner is joined to the centre exactly when they are on the same side.
            if ((firstInside && centreInside) || (firstOutside && !centreInside))
            {
                B_addSegment(self, levelSet, i, boundaryPoints[0], boundaryPoints[1]);
                B_addSegment(self, levelSet, i, boundaryPoints[2], boundaryPoints[3]);
            }
            else
            {
                B_addSegment(self, levelSet, i, boundaryPoints[0], boundaryPoints[3]);
                B_addSegment(self, levelSet, i, boundaryPoints[1], boundaryPoints[2]);
            }
            levelSet.mesh.elements[i].status = centreInside ? ElementStatus::CENTRE_INSIDE : ElementStatus::CENTRE_OUTSIDE;
        }
        else if (nCut == 0 && levelSet.mesh.elements[i].status != ElementStatus::INSIDE)
        {
            unsigned int nCorner = 0;
            for (unsigned int j=0;j<4;j++)
            {
                unsigned int node = levelSet.mesh.elements[i].nodes[j];
                if (levelSet.mesh.nodes[node].status & NodeStatus::BOUNDARY)
                {
                    boundaryPoints[nCorner] = node;
                    nCorner++;
                }
            }
            if (nCorner >= 2)
            {
                unsigned int a = B_nodePoint(self, levelSet, boundaryPoints[0]);
                unsigned int b = B_nodePoint(self, levelSet, boundaryPoints[1]);
                B_addSegment(self, levelSet, i, a, b);
            }
        }
    }
    self.computePointLengths();
}

// Constructors (C28, C34, C46).
void B_ctor(Boundary& self)
{
    self.nPoints = 0;
    self.nSegments = 0;
    self.length = 0;
}
void B_pointCtor(BoundaryPoint& self)
{
    self.coord.x = 0; self.coord.y = 0;
    self.normal.x = 0; self.normal.y = 0;
    self.length = 0; self.velocity = 0; self.negativeLimit = 0; self.positiveLimit = 0;
    self.isDomain = false; self.isFixed = false;
    self.nSegments = 0; self.nNeighbours = 0;
    self.segments.resize(2, 0);
    self.neighbours.resize(2, 0);
    self.sensitivities.resize(2, 0);
}
void B_segmentCtor(BoundarySegment& self)
{
    self.start = 0; self.end = 0; self.length = 0; self.weight = 0;
    self.element = 0;
}
}}
