// Reference semantics of Mesh, written from the properties (C01-C04), not from the code.
#include <cstdlib>
#include <cmath>
#include "Mesh.h"
namespace slsm { namespace spec {

// C01/C02: node numbering, flags, neighbours.  C03: elements and reverse connectivity.
void Mesh_ctor(Mesh& self, unsigned int w, unsigned int h)
{
    const_cast<unsigned int&>(self.width) = w;
    const_cast<unsigned int&>(self.height) = h;
    const_cast<unsigned int&>(self.nElements) = w*h;
    const_cast<unsigned int&>(self.nNodes) = (1+w)*(1+h);
    self.elements.resize(w*h);
    self.nodes.resize((1+w)*(1+h));
    self.xyToIndex.resize(w+1);
    for (unsigned int i=0;i<w+1;i++) self.xyToIndex[i].resize(h+1);

    for (unsigned int i=0;i<(1+w)*(1+h);i++)
    {
        unsigned int x = i % (w+1), y = i / (w+1);
        Node& n = self.nodes[i];
        n.isDomain = (x == 0 || y == 0 || x == w || y == h);
        n.isMasked = false;
        n.nElements = 0;
        n.nBoundaryPoints = 0;
        n.coord.x = x;
        n.coord.y = y;
        self.xyToIndex[x][y] = i;
        n.neighbours[0] = (x > 0) ? i-1 : (1+w)*(1+h);
        n.neighbours[1] = (x < w) ? i+1 : (1+w)*(1+h);
        n.neighbours[2] = (y > 0) ? i-(w+1) : (1+w)*(1+h);
        n.neighbours[3] = (y < h) ? i+(w+1) : (1+w)*(1+h);
    }
    for (unsigned int i=0;i<w*h;i++)
    {
        unsigned int x = i % w, y = i / w;
        Element& e = self.elements[i];
        e.coord.x = x + 0.5;
        e.coord.y = y + 0.5;
        e.nodes[0] = x + y*(w+1);
        e.nodes[1] = x + 1 + y*(w+1);
        e.nodes[2] = x + 1 + (y+1)*(w+1);
        e.nodes[3] = x + (y+1)*(w+1);
        for (unsigned int j=0;j<4;j++)
        {
            Node& n = self.nodes[e.nodes[j]];
            n.elements[n.nElements] = i;
            n.nElements++;
        }
    }
}

// C04: point lookup.
unsigned int Mesh_getElement(const Mesh& self, double px, double py)
{
    double x = px - 1e-6, y = py - 1e-6;
    if (x < 0) x = 0;
    if (y < 0) y = 0;
    return (unsigned int)std::floor(x) + self.width*(unsigned int)std::floor(y);
}
unsigned int Mesh_getElementCoord(const Mesh& self, const Coord& p) { return Mesh_getElement(self, p.x, p.y); }
unsigned int Mesh_getClosestNode(const Mesh& self, double px, double py)
{
    const Element& e = self.elements[Mesh_getElement(self, px, py)];
    bool left = px < e.coord.x, below = py < e.coord.y;
    if (left && below) return e.nodes[0];
    if (below) return e.nodes[1];
    if (left) return e.nodes[3];
    return e.nodes[2];
}
unsigned int Mesh_getClosestNodeCoord(const Mesh& self, const Coord& p) { return Mesh_getClosestNode(self, p.x, p.y); }

}}
