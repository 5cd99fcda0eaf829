// Reference file contents (C42): one record per entity, in order, documented columns.
#include <cstdio>
#include "Boundary.h"
#include "InputOutput.h"
#include "LevelSet.h"
#include "Mesh.h"
namespace slsm { namespace spec {

void IO_grid(FILE* f, const Mesh& mesh)
{
    fprintf(f, "# vtk DataFile Version 3.0\nPara0\nASCII\nDATASET RECTILINEAR_GRID\n");
    fprintf(f, "DIMENSIONS %d %d %d\n", mesh.width + 1, mesh.height + 1, 1);
    fprintf(f, "X_COORDINATES %d int\n", mesh.width + 1);
    for (unsigned int i=0;i<mesh.width+1;i++) fprintf(f, "%d ", i);
    fprintf(f, "\nY_COORDINATES %d int\n", mesh.height + 1);
    for (unsigned int i=0;i<mesh.height+1;i++) fprintf(f, "%d ", i);
    fprintf(f, "\nZ_COORDINATES 1 int\n0\n\n");
}
void IO_saveLevelSetVTK(const std::string& fileName, const LevelSet& levelSet, bool isVelocity, bool isGradient)
{
    FILE* f = fopen(fileName.c_str(), "w");
    IO_grid(f, levelSet.mesh);
    fprintf(f, "POINT_DATA %d\n", levelSet.mesh.nNodes);
    fprintf(f, "SCALARS distance float 1\nLOOKUP_TABLE default\n");
    for (unsigned int i=0;i<levelSet.mesh.nNodes;i++) fprintf(f, "%lf\n", levelSet.signedDistance[i]);
    if (isVelocity)
    {
        fprintf(f, "SCALARS velocity float 1\nLOOKUP_TABLE default\n");
        for (unsigned int i=0;i<levelSet.mesh.nNodes;i++) fprintf(f, "%lf\n", levelSet.velocity[i]);
    }
    if (isGradient)
    {
        fprintf(f, "SCALARS gradient float 1\nLOOKUP_TABLE default\n");
        for (unsigned int i=0;i<levelSet.mesh.nNodes;i++) fprintf(f, "%lf\n", levelSet.gradient[i]);
    }
}
void IO_saveLevelSetTXT(const std::string& fileName, const LevelSet& levelSet, bool isXY)
{
    FILE* f = fopen(fileName.c_str(), "w");
    for (unsigned int i=0;i<levelSet.mesh.nNodes;i++)
    {
        if (isXY) fprintf(f, "%lf %lf ", levelSet.mesh.nodes[i].coord.x, levelSet.mesh.nodes[i].coord.y);
        fprintf(f, "%lf %lf %lf\n", levelSet.signedDistance[i], levelSet.velocity[i], levelSet.gradient[i]);
    }
}
void IO_saveLevelSetBIN(const std::string& fileName, const LevelSet& levelSet)
{
    FILE* f = fopen(fileName.c_str(), "wb");
    fwrite(&levelSet.signedDistance[0], sizeof(double), levelSet.mesh.nNodes, f);
}
void IO_saveBoundaryPointsTXT(const std::string& fileName, const Boundary& boundary)
{
    FILE* f = fopen(fileName.c_str(), "w");
    for (unsigned int i=0;i<boundary.nPoints;i++)
        fprintf(f, "%lf %lf %lf\n", boundary.points[i].coord.x, boundary.points[i].coord.y, boundary.points[i].length);
}
void IO_saveBoundarySegmentsTXT(const std::string& fileName, const Boundary& boundary)
{
    FILE* f = fopen(fileName.c_str(), "w");
    for (unsigned int i=0;i<boundary.nSegments;i++)
    {
        fprintf(f, "%lf %lf\n", boundary.points[boundary.segments[i].start].coord.x, boundary.points[boundary.segments[i].start].coord.y);
        fprintf(f, "%lf %lf\n\n", boundary.points[boundary.segments[i].end].coord.x, boundary.points[boundary.segments[i].end].coord.y);
    }
}
void IO_saveAreaFractionsVTK(const std::string& fileName, const Mesh& mesh)
{
    FILE* f = fopen(fileName.c_str(), "w");
    IO_grid(f, mesh);
    fprintf(f, "CELL_DATA %d\nSCALARS area float 1\nLOOKUP_TABLE default\n", mesh.nElements);
    for (unsigned int i=0;i<mesh.nElements;i++) fprintf(f, "%lf\n", mesh.elements[i].area);
}
void IO_saveAreaFractionsTXT(const std::string& fileName, const Mesh& mesh, bool isXY)
{
    FILE* f = fopen(fileName.c_str(), "w");
    for (unsigned int i=0;i<mesh.nElements;i++)
    {
        if (isXY) fprintf(f, "%lf %lf ", mesh.elements[i].coord.x, mesh.elements[i].coord.y);
        fprintf(f, "%lf\n", mesh.elements[i].area);
    }
}
}}
