// Reference semantics of LevelSet (C13-C25).
#include <cstdlib>
#include <new>
#include <cmath>
#include <algorithm>
#include <functional>
#include <vector>
#include "Common.h"
#include "Boundary.h"
#include "FastMarchingMethod.h"
#include "Hole.h"
// Precondition of the comparison at this point (an invariant established by other properties).
void spec_assume(bool);
#include "LevelSet.h"
#include "Mesh.h"
#include "MersenneTwister.h"
namespace slsm { namespace spec {

// ---- construction (C13)
void LS_prepare(LevelSet& self, unsigned int width, unsigned int height, double moveLimit_, unsigned int bandWidth_, bool isFixedDomain_, bool hasTarget)
{
    double& limit = const_cast<double&>(self.moveLimit);
    limit = moveLimit_;
    new (&self.mesh) Mesh(width, height);
    self.bandWidth = bandWidth_;
    self.isFixedDomain = isFixedDomain_;
    if (!(bandWidth_ > 2)) std::exit(EXIT_FAILURE);
    if (!(moveLimit_ > 0 && moveLimit_ < 1)) std::exit(EXIT_FAILURE);
    self.signedDistance.resize(self.mesh.nNodes);
    self.velocity.resize(self.mesh.nNodes);
    self.gradient.resize(self.mesh.nNodes);
    if (hasTarget) self.target.resize(self.mesh.nNodes);
    self.narrowBand.resize(self.mesh.nNodes);
    int size = 0.2*self.mesh.nNodes;
    self.mines.resize(std::max(25, size));
}
void LS_ctorDefault(LevelSet& self, unsigned int width, unsigned int height, double moveLimit_, unsigned int bandWidth_, bool isFixedDomain_)
{
    LS_prepare(self, width, height, moveLimit_, bandWidth_, isFixedDomain_, false);
    self.initialise();
    self.initialiseNarrowBand();
}
void LS_ctorHoles(LevelSet& self, unsigned int width, unsigned int height, const std::vector<Hole>& holes, double moveLimit_, unsigned int bandWidth_, bool isFixedDomain_)
{
    LS_prepare(self, width, height, moveLimit_, bandWidth_, isFixedDomain_, false);
    self.initialise(holes);
    self.initialiseNarrowBand();
}
void LS_ctorPoints(LevelSet& self, unsigned int width, unsigned int height, const std::vector<Coord>& points, double moveLimit_, unsigned int bandWidth_, bool isFixedDomain_)
{
    LS_prepare(self, width, height, moveLimit_, bandWidth_, isFixedDomain_, false);
    self.initialise(points);
    self.initialiseNarrowBand();
}
void LS_ctorHolesHoles(LevelSet& self, unsigned int width, unsigned int height, const std::vector<Hole>& initialHoles, const std::vector<Hole>& targetHoles, double moveLimit_, unsigned int bandWidth_, bool isFixedDomain_)
{
    LS_prepare(self, width, height, moveLimit_, bandWidth_, isFixedDomain_, true);
    self.initialise(targetHoles);
    self.reinitialise();
    self.target = self.signedDistance;
    self.initialise(initialHoles);
    self.initialiseNarrowBand();
}
void LS_ctorHolesPoints(LevelSet& self, unsigned int width, unsigned int height, const std::vector<Hole>& holes, const std::vector<Coord>& points, double moveLimit_, unsigned int bandWidth_, bool isFixedDomain_)
{
    LS_prepare(self, width, height, moveLimit_, bandWidth_, isFixedDomain_, true);
    self.initialise(points);
    self.reinitialise();
    self.target = self.signedDistance;
    self.initialise(holes);
    self.initialiseNarrowBand();
}
void LS_ctorPointsPoints(LevelSet& self, unsigned int width, unsigned int height, const std::vector<Coord>& initialPoints, const std::vector<Coord>& targetPoints, double moveLimit_, unsigned int bandWidth_, bool isFixedDomain_)
{
    LS_prepare(self, width, height, moveLimit_, bandWidth_, isFixedDomain_, true);
    self.initialise(targetPoints);
    self.reinitialise();
    self.target = self.signedDistance;
    self.initialise(initialPoints);
    self.initialiseNarrowBand();
}

// ---- narrow band (C14)
void LS_initialiseNarrowBand(LevelSet& self)
{
    self.nNarrowBand = 0;
    self.nMines = 0;
    for (unsigned int i=0;i<self.mesh.nNodes;i++)
    {
        Node& node = self.mesh.nodes[i];
        double d = std::abs(self.signedDistance[i]);
        bool frozen = node.isMasked || (node.isDomain && self.isFixedDomain);
        node.isActive = !frozen && d < self.bandWidth;
        node.isMine = node.isActive && d > self.bandWidth - 1;
        if (node.isActive)
        {
            self.narrowBand[self.nNarrowBand] = i;
            self.nNarrowBand++;
        }
        if (node.isMine)
        {
            self.mines[self.nMines] = i;
            self.nMines++;
            if (self.nMines == self.mines.size()) self.mines.resize(std::min(2*self.nMines, self.mesh.nNodes));
        }
    }
}

// ---- update (C15, C16)
bool LS_update(LevelSet& self, double timeStep)
{
    for (unsigned int i=0;i<self.nNarrowBand;i++)
    {
        unsigned int node = self.narrowBand[i];
        double d = self.signedDistance[node] - timeStep * self.gradient[node] * self.velocity[node];
        if (self.mesh.nodes[node].isDomain && d > 0) d = 0;
        self.signedDistance[node] = d;
        self.mesh.nodes[node].nBoundaryPoints = 0;
    }
    for (unsigned int i=0;i<self.nMines;i++)
    {
        if (std::abs(self.signedDistance[self.mines[i]]) < 1.0)
        {
            self.reinitialise();
            return true;
        }
    }
    return false;
}
void LS_reinitialise(LevelSet& self)
{
    FastMarchingMethod fmm(self.mesh, false);
    fmm.march(self.signedDistance);
    self.initialiseNarrowBand();
}

// ---- masks (C17)
void LS_maskHoles(LevelSet& self, const std::vector<Hole>& holes)
{
    for (unsigned int i=0;i<self.mesh.nNodes;i++)
    {
        for (unsigned int j=0;j<holes.size();j++)
        {
            double dx = self.mesh.nodes[i].coord.x - holes[j].coord.x;
            double dy = self.mesh.nodes[i].coord.y - holes[j].coord.y;
            if (sqrt(dx*dx + dy*dy) < holes[j].r)
            {
                self.signedDistance[i] = -1e-6;
                self.mesh.nodes[i].isMasked = true;
            }
        }
    }
    self.reinitialise();
}
void LS_maskPoints(LevelSet& self, const std::vector<Coord>& points)
{
    if (points.size() == 2)
    {
        for (unsigned int i=0;i<self.mesh.nNodes;i++)
        {
            const Coord& c = self.mesh.nodes[i].coord;
            if (points[0].x < c.x && c.x < points[1].x && points[0].y < c.y && c.y < points[1].y)
            {
                self.signedDistance[i] = -1e-6;
                self.mesh.nodes[i].isMasked = true;
            }
        }
    }
    else
    {
        for (unsigned int i=0;i<self.mesh.nNodes;i++)
        {
            if (self.isInsidePolygon(self.mesh.nodes[i].coord, points))
            {
                self.signedDistance[i] = -1e-6;
                self.mesh.nodes[i].isMasked = true;
            }
        }
    }
    self.reinitialise();
}

// ---- gradients (C18, C19)
// one-sided difference d(k) = f(k+1) - f(k) clamped to the row, along one axis
double LS_at(const LevelSet& self, bool vertical, unsigned int line, unsigned int k)
{
    return vertical ? self.signedDistance[self.mesh.xyToIndex[line][k]] : self.signedDistance[self.mesh.xyToIndex[k][line]];
}
// ascending one-sided stencil around position p of a row of n cells: the differences over cells p+2, p+1, p, p-1, p-2
// (cell c lies between positions c and c+1), where a cell outside the row takes the value of the nearest cell inside
double LS_cell(const LevelSet& self, bool vertical, unsigned int line, unsigned int n, unsigned int p, int shift)
{
    // nearest existing cell to p + shift
    if (shift < 0)
    {
        unsigned int s = -shift;
        unsigned int c = (p >= s) ? p - s : 0;
        if (p >= n + s) c = n - 1;
        return LS_at(self, vertical, line, c + 1) - LS_at(self, vertical, line, c);
    }
    unsigned int s = shift;
    unsigned int c = (p + s < n) ? p + s : n - 1;
    return LS_at(self, vertical, line, c + 1) - LS_at(self, vertical, line, c);
}
double LS_ascending(const LevelSet& self, bool vertical, unsigned int line, unsigned int n, unsigned int p)
{
    return self.gradHJWENO(LS_cell(self, vertical, line, n, p, 2), LS_cell(self, vertical, line, n, p, 1),
        LS_cell(self, vertical, line, n, p, 0), LS_cell(self, vertical, line, n, p, -1), LS_cell(self, vertical, line, n, p, -2));
}
double LS_descending(const LevelSet& self, bool vertical, unsigned int line, unsigned int n, unsigned int p)
{
    return self.gradHJWENO(LS_cell(self, vertical, line, n, p, -3), LS_cell(self, vertical, line, n, p, -2),
        LS_cell(self, vertical, line, n, p, -1), LS_cell(self, vertical, line, n, p, 0), LS_cell(self, vertical, line, n, p, 1));
}
double LS_computeGradient(const LevelSet& self, const unsigned int node)
{
    unsigned int x = self.mesh.nodes[node].coord.x;
    unsigned int y = self.mesh.nodes[node].coord.y;
    unsigned int w = self.mesh.width, h = self.mesh.height;
    // Nodes lie on the grid (C01); the claim is for meshes of at least 4 x 4.
    spec_assume(self.mesh.nodes[node].coord.x >= 0 && self.mesh.nodes[node].coord.y >= 0);
    spec_assume(x <= w && y <= h && w >= 4 && h >= 4);
    double lsf = self.signedDistance[node];
    if ((x == 0 || x == w) && (y == 0 || y == h))
    {
        unsigned int px = (x == 0) ? x+1 : x-1;
        unsigned int py = (y == 0) ? y+1 : y-1;
        if (std::abs(self.signedDistance[self.mesh.xyToIndex[px][y]] - lsf) < 1e-6 &&
            std::abs(self.signedDistance[self.mesh.xyToIndex[x][py]] - lsf) < 1e-6)
            return sqrt(2.0) * std::abs(lsf - self.signedDistance[self.mesh.xyToIndex[px][py]]);
    }
    double sign = self.velocity[node] < 0 ? -1 : 1;
    double right = sign * LS_ascending(self, false, y, w, x);
    double left = sign * LS_descending(self, false, y, w, x);
    double up = sign * LS_ascending(self, true, x, h, y);
    double down = sign * LS_descending(self, true, x, h, y);
    double grad = 0;
    if (down > 0) grad += down*down;
    if (left > 0) grad += left*left;
    if (up < 0) grad += up*up;
    if (right < 0) grad += right*right;
    return sqrt(grad);
}
double LS_gradHJWENO(const LevelSet& self, double v1, double v2, double v3, double v4, double v5)
{
    double s1 = (13.0/12.0)*(v1 - 2*v2 + v3)*(v1 - 2*v2 + v3) + 0.25*(v1 - 4*v2 + 3*v3)*(v1 - 4*v2 + 3*v3);
    double s2 = (13.0/12.0)*(v2 - 2*v3 + v4)*(v2 - 2*v3 + v4) + 0.25*(v2 - v4)*(v2 - v4);
    double s3 = (13.0/12.0)*(v3 - 2*v4 + v5)*(v3 - 2*v4 + v5) + 0.25*(3*v3 - 4*v4 + v5)*(3*v3 - 4*v4 + v5);
    double a1 = 0.1/((s1 + 1e-6)*(s1 + 1e-6));
    double a2 = 0.6/((s2 + 1e-6)*(s2 + 1e-6));
    double a3 = 0.3/((s3 + 1e-6)*(s3 + 1e-6));
    double t = a1 + a2 + a3;
    return (1.0/6.0)*((a1/t)*(2*v1 - 7*v2 + 11*v3) + (a2/t)*(5*v3 - v2 + 2*v4) + (a3/t)*(2*v3 + 5*v4 - v5));
}
void LS_computeGradients(LevelSet& self)
{
    for (unsigned int i=0;i<self.gradient.size();i++) self.gradient[i] = 0;
    for (unsigned int i=0;i<self.nNarrowBand;i++)
    {
        unsigned int node = self.narrowBand[i];
        self.gradient[node] = self.computeGradient(node);
    }
}

// ---- velocities (C20, C21)
void LS_initialiseVelocities(LevelSet& self, const std::vector<BoundaryPoint>& boundaryPoints)
{
    std::vector<bool> isSet(self.mesh.nNodes);
    std::vector<double> weight(self.mesh.nNodes);
    for (unsigned int i=0;i<self.mesh.nNodes;i++)
    {
        isSet[i] = false;
        weight[i] = 0;
        self.velocity[i] = 0;
    }
    for (unsigned int i=0;i<boundaryPoints.size();i++)
    {
        unsigned int node = self.mesh.getClosestNode(boundaryPoints[i].coord);
        double dx = self.mesh.nodes[node].coord.x - boundaryPoints[i].coord.x;
        double dy = self.mesh.nodes[node].coord.y - boundaryPoints[i].coord.y;
        double r = dx*dx + dy*dy;
        if (r < 1e-6)
        {
            self.velocity[node] = boundaryPoints[i].velocity;
            weight[node] = 1.0;
            isSet[node] = true;
        }
        else if (!isSet[node])
        {
            self.velocity[node] += boundaryPoints[i].velocity / r;
            weight[node] += 1.0 / r;
        }
        for (unsigned int j=0;j<4;j++)
        {
            unsigned int n = self.mesh.nodes[node].neighbours[j];
            if (!(n < self.mesh.nNodes)) continue;
            double ex = self.mesh.nodes[n].coord.x - boundaryPoints[i].coord.x;
            double ey = self.mesh.nodes[n].coord.y - boundaryPoints[i].coord.y;
            double q = ex*ex + ey*ey;
            if (q < 1e-6)
            {
                self.velocity[n] = boundaryPoints[i].velocity;
                weight[n] = 1.0;
                isSet[n] = true;
            }
            else if (q <= 1.0 && !isSet[n])
            {
                self.velocity[n] += boundaryPoints[i].velocity / q;
                weight[n] += 1.0 / q;
            }
        }
    }
    for (unsigned int i=0;i<self.nNarrowBand;i++)
    {
        unsigned int node = self.narrowBand[i];
        if (self.velocity[node] != 0) self.velocity[node] /= weight[node];
    }
}
void LS_computeVelocities(LevelSet& self, const std::vector<BoundaryPoint>& boundaryPoints)
{
    self.initialiseVelocities(boundaryPoints);
    FastMarchingMethod fmm(self.mesh, false);
    fmm.march(self.signedDistance, self.velocity);
}
double LS_computeVelocitiesNoise(LevelSet& self, std::vector<BoundaryPoint>& boundaryPoints, double& timeStep, const double temperature, MersenneTwister& rng)
{
    double scale = 1.0;
    if (sqrt(2.0*temperature) * sqrt(timeStep) > 0.5*self.moveLimit)
    {
        scale = (8.0*timeStep*temperature) / (self.moveLimit*self.moveLimit);
        timeStep = timeStep / scale;
    }
    for (unsigned int i=0;i<boundaryPoints.size();i++)
        boundaryPoints[i].velocity += ((sqrt(2.0*temperature) / sqrt(timeStep)) / sqrt(boundaryPoints[i].length)) * rng.normal(0, 1);
    self.computeVelocities(boundaryPoints);
    return scale;
}

// ---- areas (C22, C23)
double LS_computeAreaFractions(LevelSet& self, const Boundary& boundary)
{
    self.area = 0;
    for (unsigned int i=0;i<self.mesh.nElements;i++)
    {
        double a;
        if (self.mesh.elements[i].status & ElementStatus::INSIDE) a = 1.0;
        else if (self.mesh.elements[i].status & ElementStatus::OUTSIDE) a = 0.0;
        else a = self.cutArea(self.mesh.elements[i], boundary);
        self.mesh.elements[i].area = a;
        self.area += a;
    }
    return self.area;
}
double LS_cutArea(const LevelSet& self, const Element& element, const Boundary& boundary)
{
    unsigned int nVertices = 0;
    std::vector<Coord> vertices(6);
    bool outside = element.status & ElementStatus::CENTRE_OUTSIDE;
    for (unsigned int i=0;i<4;i++)
    {
        const Node& node = self.mesh.nodes[element.nodes[i]];
        bool take = outside ? (node.status & NodeStatus::OUTSIDE) : (node.status & NodeStatus::INSIDE);
        if (!take && (node.status & NodeStatus::BOUNDARY))
            take = (self.mesh.nodes[element.nodes[(i+1)%4]].status & NodeStatus::INSIDE) && (self.mesh.nodes[element.nodes[(i+3)%4]].status & NodeStatus::INSIDE);
        if (take)
        {
            vertices[nVertices].x = node.coord.x;
            vertices[nVertices].y = node.coord.y;
            nVertices++;
        }
    }
    for (unsigned int i=0;i<element.nBoundarySegments;i++)
    {
        const BoundarySegment& s = boundary.segments[element.boundarySegments[i]];
        vertices[nVertices].x = boundary.points[s.start].coord.x;
        vertices[nVertices].y = boundary.points[s.start].coord.y;
        nVertices++;
        vertices[nVertices].x = boundary.points[s.end].coord.x;
        vertices[nVertices].y = boundary.points[s.end].coord.y;
        nVertices++;
    }
    double a = self.polygonArea(vertices, nVertices, element.coord);
    return outside ? 1.0 - a : a;
}
bool LS_isClockwise(const LevelSet& self, const Coord& point1, const Coord& point2, const Coord& centre)
{
    double ax = point1.x - centre.x, ay = point1.y - centre.y;
    double bx = point2.x - centre.x, by = point2.y - centre.y;
    if (ax >= 0 && bx < 0) return false;
    if (ax < 0 && bx >= 0) return true;
    if (ax == 0 && bx == 0)
    {
        if (ay >= 0 || by >= 0) return point1.y < point2.y;
        return point2.y < point1.y;
    }
    double det = ax*by - bx*ay;
    if (det < 0) return false;
    if (det > 0) return true;
    return ax*ax + ay*ay < bx*bx + by*by;
}
double LS_polygonArea(const LevelSet& self, std::vector<Coord>& vertices, const unsigned int& nVertices, const Coord& centre)
{
    double area = 0;
    std::sort(vertices.begin(), vertices.begin() + nVertices, std::bind(&LevelSet::isClockwise,
        &self, std::placeholders::_1, std::placeholders::_2, centre));
    for (unsigned int i=0;i<nVertices;i++)
    {
        unsigned int j = (i == (nVertices - 1)) ? 0 : (i + 1);
        area += vertices[i].x * vertices[j].y;
        area -= vertices[j].x * vertices[i].y;
    }
    return std::abs(area * 0.5);
}

// ---- initial shapes (C24, C25)
void LS_initialiseCheese(LevelSet& self)
{
    unsigned int nx = std::round((double) self.mesh.width / 30);
    unsigned int ny = std::round((double) self.mesh.height / 30);
    if (!(nx > 2 && ny > 2)) std::exit(EXIT_FAILURE);
    unsigned int n1 = nx*ny;
    unsigned int n2 = (nx - 1)*(ny - 1);
    std::vector<Hole> holes(n1 + n2);
    double dx = (double) self.mesh.width / (2*nx);
    double dy = (double) self.mesh.height / (2*ny);
    for (unsigned int i=0;i<n1;i++)
    {
        holes[i].coord.x = dx + (2*(i % nx)*dx);
        holes[i].coord.y = dy + (2*(i / nx)*dy);
        holes[i].r = 5;
    }
    for (unsigned int i=0;i<n2;i++)
    {
        holes[i + n1].coord.x = 2*(dx + ((i % (nx-1))*dx));
        holes[i + n1].coord.y = 2*(dy + ((i / (nx-1))*dy));
        holes[i + n1].r = 5;
    }
    self.initialise(holes);
}
void LS_holeDefault(Hole& self)
{
    self.coord.x = 0; self.coord.y = 0; self.r = 0;
}
void LS_holeNumbers(Hole& self, double x, double y, double r)
{
    self.coord.x = x; self.coord.y = y; self.r = r;
}
void LS_holeCoord(Hole& self, const Coord& coord, double r)
{
    self.coord.x = coord.x; self.coord.y = coord.y; self.r = r;
}
void LS_coordDefault(Coord& self)
{
    self.x = 0; self.y = 0;
}
void LS_coordNumbers(Coord& self, double x, double y)
{
    self.x = x; self.y = y;
}
void LS_initialiseHoles(LevelSet& self, const std::vector<Hole>& holes)
{
    self.closestDomainBoundary();
    for (unsigned int i=0;i<self.mesh.nNodes;i++)
    {
        for (unsigned int j=0;j<holes.size();j++)
        {
            double dx = holes[j].coord.x - self.mesh.nodes[i].coord.x;
            double dy = holes[j].coord.y - self.mesh.nodes[i].coord.y;
            double dist = sqrt(dx*dx + dy*dy) - holes[j].r;
            if (dist < self.signedDistance[i]) self.signedDistance[i] = dist;
        }
    }
}
void LS_initialisePoints(LevelSet& self, const std::vector<Coord>& points)
{
    self.closestDomainBoundary();
    for (unsigned int i=0;i<self.mesh.nNodes;i++)
    {
        for (unsigned int j=0;j+1<points.size();j++)
        {
            double dist = self.pointToLineDistance(points[j], points[j+1], self.mesh.nodes[i].coord);
            if (dist < self.signedDistance[i]) self.signedDistance[i] = dist;
        }
        if (self.isInsidePolygon(self.mesh.nodes[i].coord, points)) self.signedDistance[i] = -self.signedDistance[i];
    }
}
void LS_closestDomainBoundary(LevelSet& self)
{
    for (unsigned int i=0;i<self.mesh.nNodes;i++)
    {
        // Nodes lie on the grid (C01).
        spec_assume(self.mesh.nodes[i].coord.x >= 0 && self.mesh.nodes[i].coord.x <= self.mesh.width);
        spec_assume(self.mesh.nodes[i].coord.y >= 0 && self.mesh.nodes[i].coord.y <= self.mesh.height);
        unsigned int minX = std::min(self.mesh.nodes[i].coord.x, self.mesh.width - self.mesh.nodes[i].coord.x);
        unsigned int minY = std::min(self.mesh.nodes[i].coord.y, self.mesh.height - self.mesh.nodes[i].coord.y);
        self.signedDistance[i] = (minX < minY) ? minX : minY;
    }
}
double LS_pointToLineDistance(const LevelSet& self, const Coord& vertex1, const Coord& vertex2, const Coord& point)
{
    double dx = vertex2.x - vertex1.x, dy = vertex2.y - vertex1.y;
    double r = dx*dx + dy*dy;
    double ex = point.x - vertex1.x, ey = point.y - vertex1.y;
    if (r < 1e-6) return sqrt(ex*ex + ey*ey);
    double t = (ex*dx + ey*dy)/r;
    if (t > 1) t = 1;
    if (t < 0) t = 0;
    double fx = vertex1.x + t*dx - point.x, fy = vertex1.y + t*dy - point.y;
    return sqrt(fx*fx + fy*fy);
}
bool LS_isInsidePolygon(const LevelSet& self, const Coord& point, const std::vector<Coord>& vertices)
{
    int windingNumber = 0;
    for (unsigned int i=0;i+1<vertices.size();i++)
    {
        const Coord& a = vertices[i];
        const Coord& b = vertices[i+1];
        double side = (b.x - a.x)*(point.y - a.y) - (point.x - a.x)*(b.y - a.y);
        if (a.y <= point.y)
        {
            if (b.y > point.y && side > 0) windingNumber++;
        }
        else
        {
            if (b.y <= point.y && side < 0) windingNumber--;
        }
    }
    return windingNumber != 0;
}
}}
