// What a generated program needs at run time: index boxes, arrays, scalars.
#pragma once
#include <vector>
struct Ctx {
    int dlo[4], dhi[4], ds[4];            // domain
    int vlo[10][4], vhi[10][4];           // view bounds, all axes
    void* p[10];                          // storage
    double d[12];                         // scalars
    int i[12];
    int h[12];                            // shift distances
    int* o;                               // offsets
};
struct Prog {
    const char* text; // what the program means
    const char* code; // for people
    void (*run)(Ctx&);
};
